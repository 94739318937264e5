"""The sample files that come with the repository, and options to read them with."""
import os

from .core import REPO

DATA = os.path.join(REPO, "rsciio", "tests", "data")
SKIP_EXT = {".npy", ".npz", ".json", ".raw", ".txt", ".pkl", ".py"}
#: readers without lazy support (they raise NotImplementedError)
EAGER_ONLY = {
    "arina", "delmic", "dens", "digitalsurf", "impulse", "jobinyvon", "msa", "phenom",
    "protochips", "quadstar", "renishaw", "trivista", "netcdf",
}

#: readers that return some of their signals as numpy arrays even when lazy
PARTLY_EAGER = {"bruker", "hamamatsu", "jeol", "mrcz", "topspin"}


def files():
    res = []
    for p in sorted(os.listdir(DATA)):
        d = os.path.join(DATA, p)
        if not os.path.isdir(d) or p == "npz":
            continue
        for r, dirs, fs in sorted(os.walk(d)):
            for x in sorted(dirs):
                if x.endswith(".zspy"):
                    res.append((p, os.path.join(r, x)))
            dirs[:] = [x for x in dirs if not x.endswith(".zspy")]
            for f in sorted(fs):
                e = os.path.splitext(f)[1]
                if e in SKIP_EXT:
                    continue
                if p == "empad" and e != ".xml":
                    continue
                if p == "ripple" and e != ".rpl":
                    continue
                if p == "arina" and f != "test_00_master.h5":
                    continue
                res.append((p, os.path.join(r, f)))
    return res


def variants(plugin, path):
    """Keyword arguments (other than lazy) a file is read with."""
    v = [{}]
    f = os.path.basename(path)
    if plugin == "bruker" and path.endswith(".bcf"):
        v += [{"select_type": "spectrum_image", "downsample": 2}, {"select_type": "image"},
              {"select_type": "spectrum_image", "downsample": 3, "cutoff_at_kV": 5}]
    if plugin == "digitalmicrograph":
        v += [{"optimize": False}]
    if plugin == "emd" and f.endswith(".emd"):
        v += [{"load_SI_image_stack": True}, {"sum_frames": False, "SI_dtype": "u2", "rebin_energy": 64}]
    if plugin == "jeol" and path.endswith(".pts"):
        v += [{"sum_frames": False, "rebin_energy": 64}, {"downsample": 2, "cutoff_at_kV": 2},
              {"read_em_image": True, "rebin_energy": 8, "only_valid_data": False}]
    if plugin == "hamamatsu":
        v += [{"use_uniform_signal_axes": True}]
    if plugin in ("jobinyvon", "renishaw", "trivista"):
        v += [{"use_uniform_signal_axis": True}]
    if plugin == "quadstar":
        v += [{"use_uniform_signal_axis": False}]
    if plugin == "trivista":
        v += [{"glued_data_as_stack": True}, {"filter_original_metadata": False}]
    if plugin == "renishaw":
        v += [{"load_unmatched_metadata": True}]
    if plugin == "tia":
        v += [{"only_valid_data": False}]
    if plugin == "tiff":
        v += [{"multipage_as_list": True}, {"force_read_resolution": True}]
    if plugin == "nexus":
        v += [{"nxdata_only": True}, {"skip_array_metadata": True, "hardlinks_only": True}, {"use_default": True}]
    if plugin == "mrc":
        v += [{"metadata_file": None}]
    if plugin == "tvips" and f.endswith("_000.tvips"):
        v += [{"scan_shape": (2, 2)}, {"scan_shape": (2, 2), "winding_scan_axis": "x"},
              {"scan_shape": (2, 1), "scan_start_frame": 1}]
    return v
