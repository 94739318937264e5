-------------------------------- MODULE LabMaps --------------------------------
(* Spectrum images and diffraction maps of EDAX, EMPAD and EELSLab: which      *)
(* number of the file is where in the array, and what the axes are.            *)
(* Indices of file words and of positions count from 0.                        *)
EXTENDS VF
(* EDAX: spectra one after the other, line by line, after a header.            *)
EdaxWord(y, x, c, nx, nz) == (((y * nx) + x) * nz) + c
EdaxMap(ny, nx, nz)  == FlattenSeq([y \in 1..ny |-> FlattenSeq([x \in 1..nx |-> [c \in 1..nz |-> EdaxWord(y - 1, x - 1, c - 1, nx, nz)]])])
\* a line scan has the spectra recorded, which may be fewer than planned
EdaxLine(ny, nx, ns, nz) == [i \in 1..(Min2(ns, ny * nx) * nz) |-> i - 1]
\* EMPAD: frames of 130 rows, of which 128 are the image
Rows == 130
ImageRows == 128
EmpadWord(f, r, c) == (((f * Rows) + r) * 128) + c
\* EELSLab: arrays are stored with their dimensions reversed (Fortran order)
Strides(sh) == [i \in 1..Len(sh) |-> ProdSeq(Sub(sh, i + 1, Len(sh)))]
\* the position (as a sequence) of the k-th number of an array of shape sh
PosOf(k, sh) == [i \in 1..Len(sh) |-> (k \div Strides(sh)[i]) % sh[i]]
WordOf(p, sh) == SumSeq([i \in 1..Len(sh) |-> p[i] * Strides(sh)[i]])
\* stored with shape vs; returned reversed: the k-th number returned is word Rev
FortranWord(k, vs) == WordOf(Reverse(PosOf(k, Reverse(vs))), vs)
Fortran(vs) == [k \in 1..ProdSeq(vs) |-> FortranWord(k - 1, vs)]
\* dimensions of length 1 are left out
Long(s) == SelectSeq(s, LAMBDA n: n > 1)
LongOf(s, v) == LET I == SelectSeq([i \in 1..Len(s) |-> i], LAMBDA i: s[i] > 1) IN [i \in 1..Len(I) |-> v[I[i]]]
=============================================================================
