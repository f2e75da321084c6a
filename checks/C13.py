import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import common, cbmc
def go(c):
    T = common.TIER == "thorough"
    C = cbmc.CBMC(c, [], "images.c", unwind=40, timeout=600 if T else 400)
    jobs = [dict(fn="address_" + t, name="address " + t) for t in "uint8 uint16 bgr int8 int16 int32 uint32 int64 uint64 float double".split()]
    jobs += [dict(fn=j["fn"], name=j["name"] + " small crops", defs=("SMALL=1",)) for j in jobs]
    for w, h in [(1, 1), (3, 1), (1, 2)] + ([(1, 3), (2, 2), (3, 2)] if T else []):
        jobs.append(dict(fn="stretch", name="stretch %dx%d" % (w, h), defs=("W=%d" % w, "H=%d" % h)))
    jobs.append(dict(fn="stretch", name="stretch 2x1 linear", defs=("W=2", "H=1", "LINEAR")))
    for bpp in (8, 16, 24):
        for ext in (".png", ".PNG", ".jpg", ".pgm", ".ppm", ".xyz"):
            jobs.append(dict(fn="save", name="save %d %s" % (bpp, ext), defs=("BPP=%d" % bpp, 'EXT="%s"' % ext, "W=%d" % (3 if T else 2), "H=3", "PAD=1")))
        jobs.append(dict(fn="save", name="save %d dense" % bpp, defs=("BPP=%d" % bpp, "W=2", "H=2", "PAD=0")))
    for w, h in [(2, 1)] + ([(1, 1), (2, 2), (3, 1)] if T else []):
        for ch in (1, 2, 3, 4):
            for is16 in (0, 1):
                for want in (0, 8, 16, 24):
                    jobs.append(dict(fn="load", name="load %dx%d channels %d 16-bit %d as %d" % (w, h, ch, is16, want), defs=("W=%d" % w, "H=%d" % h, "CHANNELS=%d" % ch, "IS16=%d" % is16, "WANT=%d" % want), unwind=14))
    jobs.sort(key=lambda j: ("stretch", "load", "address", "save").index(j["fn"].split("_")[0]))
    C.many(jobs, workers=8)
    c.functions |= {"mrcal_image_*_at", "mrcal_image_*_at_const", "mrcal_image_*_crop", "stretch_equalization_uint8_from_uint16", "bgr_tofrom_rgb", "generic_save*", "generic_load", "mrcal_image_*_save", "mrcal_image_*_load", "mrcal_image_anytype_load"}
    c.bounds = dict(addresses="width, height <= 100000; any stride, of either sign, that keeps the pixels aligned", stretch="up to %s pixels, every 16-bit value" % (6 if T else 3),
                    save_load="up to 3x3 pixels, every value; padded and dense rows; the format libraries and stdio are stand-ins that record")
    c.extra["explanation"] = "CBMC bounded model checking of image.h and image.c (included in harness/images.c with stand-ins for stb_image, libpng, libjpeg and stdio)"
common.main(go, "C13")
