"""Makes EDAX files (.spc, .spd, .lsd, .ipr, .csv): every field of a header is
put at its place in the file, as documented (name, offset, type, count)."""
import numpy as np

SPC = """
fVersion 0 f4 1; aVersion 4 f4 1; fileName 8 i1 8; collectDateYear 16 i2 1; collectDateDay 18 i1 1; collectDateMon 19 i1 1; 
collectTimeMin 20 i1 1; collectTimeHour 21 i1 1; collectTimeHund 22 i1 1; collectTimeSec 23 i1 1; fileSize 24 i4 1; 
dataStart 28 i4 1; numPts 32 i2 1; intersectingDist 34 i2 1; workingDist 36 i2 1; scaleSetting 38 i2 1; spectrumLabel 64 i1 256; 
imageFilename 320 i1 8; spotX 328 i2 1; spotY 330 i2 1; imageADC 332 i2 1; discrValues 334 i4 5; discrEnabled 354 i1 5; 
pileupProcessed 359 i1 1; fpgaVersion 360 i4 1; pileupProcVersion 364 i4 1; NB5000CFG 368 i4 1; evPerChan 384 i4 1; 
ADCTimeConstant 388 i2 1; analysisType 390 i2 1; preset 392 f4 1; maxp 396 i4 1; maxPeakCh 400 i4 1; xRayTubeZ 404 i2 1; 
filterZ 406 i2 1; current 408 f4 1; sampleCond 412 i2 1; sampleType 414 i2 1; xrayCollimator 416 u2 1; xrayCapilaryType 418 u2 1; 
xrayCapilarySize 420 u2 1; xrayFilterThickness 422 u2 1; spectrumSmoothed 424 u2 1; detector_Size_SiLi 426 u2 1; 
spectrumReCalib 428 u2 1; eagleSystem 430 u2 1; sumPeakRemoved 432 u2 1; edaxSoftwareType 434 u2 1; escapePeakRemoved 442 u2 1; 
analyzerType 444 u4 1; startEnergy 448 f4 1; endEnergy 452 f4 1; liveTime 456 f4 1; tilt 460 f4 1; takeoff 464 f4 1; 
beamCurFact 468 f4 1; detReso 472 f4 1; detectType 476 u4 1; parThick 480 f4 1; alThick 484 f4 1; beWinThick 488 f4 1; 
auThick 492 f4 1; siDead 496 f4 1; siLive 500 f4 1; xrayInc 504 f4 1; azimuth 508 f4 1; elevation 512 f4 1; bCoeff 516 f4 1; 
cCoeff 520 f4 1; tailMax 524 f4 1; tailHeight 528 f4 1; kV 532 f4 1; apThick 536 f4 1; xTilt 540 f4 1; yTilt 544 f4 1; 
yagStatus 548 u4 1; rawDataType 576 u2 1; totalBkgdCount 578 f4 1; totalSpectralCount 582 u4 1; avginputCount 586 f4 1; 
stdDevInputCount 590 f4 1; peakToBack 594 u2 1; peakToBackValue 596 f4 1; numElem 638 i2 1; at 640 u2 48; line 736 u2 48; 
energy 832 f4 48; height 1024 u4 48; spkht 1216 i2 48; numRois 1342 i2 1; st 1344 i2 48; end 1440 i2 48; roiEnable 1536 i2 48; 
roiNames 1632 i1 192; userID 1825 i1 80; sRoi 2016 i2 48; scaNum 2112 i2 48; backgrdWidth 2220 i2 1; manBkgrdPerc 2222 f4 1; 
numBkgrdPts 2226 i2 1; backMethod 2228 u4 1; backStEng 2232 f4 1; backEndEng 2236 f4 1; bg 2240 i2 64; bgType 2368 u4 1; 
concenKev1 2372 f4 1; concenKev2 2376 f4 1; concenMethod 2380 i2 1; jobFilename 2382 i1 32; numLabels 2430 i2 1; label 2432 i1 320; 
labelx 2752 i2 10; labely 2772 i4 10; zListFlag 2812 i4 1; bgPercents 2816 f4 64; IswGBg 3072 i2 1; BgPoints 3074 f4 5; 
IswGConc 3094 i2 1; numConcen 3096 i2 1; ZList 3098 i2 24; GivenConc 3146 f4 24; s 3840 i4 4096; longFileName 20224 i1 256; 
longImageFileName 20480 i1 256; ADCTimeConstantNew 20736 f4 1; numZElements 20800 i2 1; zAtoms 20802 i2 48; zShells 20898 i2 48
"""
IPR = """
version 0 u2 1; imageType 2 u2 1; label 4 S8 1; sMin 12 u2 1; sMax 14 u2 1; color 16 u2 1; presetMode 18 u2 1; presetTime 20 u4 1; 
dataType 24 u2 1; timeConstantOld 26 u2 1; reserved1 28 i2 1; roiStartChan 30 u2 1; roiEndChan 32 u2 1; userMin 34 i2 1; 
userMax 36 i2 1; iADC 38 u2 1; reserved2 40 i2 1; iBits 42 u2 1; nReads 44 u2 1; nFrames 46 u2 1; fDwell 48 f4 1; accV 52 u2 1; 
tilt 54 i2 1; takeoff 56 i2 1; mag 58 u4 1; wd 62 u2 1; mppX 64 f4 1; mppY 68 f4 1; nTextLines 72 u2 1; charText 74 S32 4; 
reserved3 202 f4 4; nOverlayElements 218 u2 1; overlayColors 220 u2 16; timeConstantNew 252 f4 1; reserved4 256 f4 2
"""
TEXT = {"fileName", "spectrumLabel", "imageFilename", "roiNames", "userID", "jobFilename", "label", "longFileName", "longImageFileName"}
#: what is read without load_all_spc
FEW = ["dataStart", "numPts", "evPerChan", "startEnergy", "endEnergy", "liveTime", "tilt", "detReso", "azimuth", "elevation", "kV", "numElem", "at"]


def fields(t):
    out = []
    for x in t.replace("\n", " ").split(";"):
        n, o, k, c = x.split()
        out.append((n, int(o), k, int(c)))
    return out


SPC_FIELDS, IPR_FIELDS = fields(SPC), fields(IPR)


def value(r, k, c):
    lim = {"i1": 100, "i2": 30000, "u2": 60000, "i4": 2**20, "u4": 2**20}.get(k)
    if k == "f4":
        v = [r.randrange(-8000, 8000) / 8 for _ in range(c)]
    else:
        v = [r.randrange(0, lim) for _ in range(c)]
    return v


def put(buf, o, k, v, end):
    b = np.array(v, dtype=end + k).tobytes()
    buf[o : o + len(b)] = b


def header(r, table, end, known, size):
    """Random fields, the known ones as given: bytes and values."""
    buf = bytearray(r.randbytes(size))
    vals = {}
    for n, o, k, c in table:
        if o >= size or n == "s":
            continue
        if k[0] == "S":
            vals[n] = known.get(n, ["ab"] * c)
            w = int(k[1:])
            for i, t in enumerate(vals[n]):
                buf[o + i * w : o + (i + 1) * w] = t.encode().ljust(w, b"\0")
            continue
        v = known.get(n, value(r, k, c))
        put(buf, o, k, v, end)
        vals[n] = v
    return buf, vals
