"""Falsifier for C07, C08, C09, C12, C15: random and model-guided inputs on the real screen.py."""
import sys
import lib
from lib import fail, window, bo, dots, dist
import numpy as np
import screen
import palette

R = lib.rnd()
SPECIAL = [0, 1, 2, 3, 0x40, 0x60, 0x7f, 0x80, 0x81, 0xc0, 0xff, 0x55, 0xaa, 0xd5, 0x2a]


def val():
    return R.choice(SPECIAL) if R.random() < 0.5 else R.randrange(256)


def image():
    k = R.random()
    if k < 0.2:
        d = [R.choice((0, 0x7f, 0x80, 0xff)) for _ in range(8192)]
    elif k < 0.3:
        d = [0] * 8192
    else:
        d = [R.randrange(256) for _ in range(8192)]
    return np.array(d, dtype=np.uint8).reshape((32, 256))


def mk(hgr, main, aux, pal=palette.Palette.NTSC):
    m = screen.MemoryMap(1, main.copy())
    if hgr:
        return screen.HGRBitmap(palette=pal, main_memory=m)
    return screen.DHGRBitmap(palette=pal, main_memory=m, aux_memory=screen.MemoryMap(1, aux.copy()))


def from_model(m, name):
    return np.array(lib.cells(m, name, 8192), dtype=np.uint8).reshape((32, 256))


def one_store(hgr, main, aux, ops):
    b = mk(hgr, main, aux)
    ref = {False: main.copy(), True: aux.copy()}
    for n, (page, off, is_aux, v) in enumerate(ops):
        try:
            b.apply(page, off, is_aux, np.uint8(v))
        except Exception as e:
            fail("apply(page=%d, offset=%d, aux=%s, value=%d) raises %r" % (page, off, is_aux, v, e), hgr=hgr)
        ref[is_aux][page, off] = v
        f = mk(hgr, ref[False], ref[True])
        ctx = dict(mode="HGR" if hgr else "DHGR", stores=ops[max(0, n - 4):n + 1])
        if not np.array_equal(b.main_memory.page_offset, ref[False]) or (
                not hgr and not np.array_equal(b.aux_memory.page_offset, ref[True])):
            fail("a store does not change exactly the addressed byte: page %d offset %d aux %s value %d" % (
                page, off, is_aux, v), **ctx)
        if not np.array_equal(b.packed, f.packed):
            d = np.argwhere(b.packed != f.packed)[0].tolist()
            fail("after storing %d at page %d offset %d (aux %s) packed cell %r is 0x%x, afresh 0x%x" % (
                v, page, off, is_aux, d, int(b.packed[d[0], d[1]]), int(f.packed[d[0], d[1]])), **ctx)


def c07(models):
    for m in models:
        v = m["vars"]
        hgr = m["obligation"].startswith("HGR")
        one_store(hgr, from_model(m, "main"), from_model(m, "aux"),
                  [(int(v.get("page", 0)), int(v.get("offset", 0)), bool(v.get("is_aux", False)) and not hgr,
                    int(v.get("value", 0)) & 255)])
    for hgr in (True, False):
        for _ in range(6):
            ops = []
            for o in range(256):
                for a in ((False,) if hgr else (False, True)):
                    ops.append((R.randrange(32), o, a, val()))
            R.shuffle(ops)
            ops = ops[:260]
            ops += [(R.choice((0, 31)), R.choice((0, 1, 254, 255)), False if hgr else R.random() < 0.5, val())
                    for _ in range(30)]
            one_store(hgr, image(), image(), ops)


def check_dots(hgr, main, aux, cells):
    b = mk(hgr, main, aux)
    cls = type(b)
    for page, off, a in cells:
        o = b.byte_offset(off, a)
        w = int(cls.mask_and_shift_data(b.packed[page, off // 2], o))
        d = cls.to_dots(w, o)
        want = dots(hgr, main, aux, page, off, a)
        got = [(d >> i) & 1 for i in range(len(want))]
        if got != want or d >> len(want):
            fail("%s dots around page %d offset %d (aux %s): derived %r, displayed %r" % (
                "HGR" if hgr else "DHGR", page, off, a, got, want),
                bytes=[[int(x) for x in m[page][max(0, off - 1):off + 2]] for m in (main, aux)])


def c08(models):
    for m in models:
        v = m["vars"]
        hgr = m["obligation"].startswith("HGR")
        check_dots(hgr, from_model(m, "main"), from_model(m, "aux"),
                   [(int(v.get("page", 0)), int(v.get("offset", 0)), bool(v.get("is_aux", False)) and not hgr)])
    for hgr in (True, False):
        for _ in range(4):
            main, aux = image(), image()
            check_dots(hgr, main, aux, [(p, o, a) for p in range(32) for o in range(256)
                                        for a in ((False,) if hgr else (False, True))])


def check_err(hgr, sm, sa, tm, ta, cells, pal):
    s, t = mk(hgr, sm, sa, pal), mk(hgr, tm, ta, pal)
    mb = int(t.MASKED_BITS)
    for is_aux in ((False,) if hgr else (False, True)):
        before = (s.packed.copy(), t.packed.copy())
        dw = t.diff_weights(s, is_aux)
        mode = "HGR" if hgr else "DHGR"
        for p in range(32):
            for o in range(256):
                w = dist(mb, bo(hgr, o, is_aux), pal.value, window(hgr, sm, sa, p, o, is_aux),
                         window(hgr, tm, ta, p, o, is_aux))
                if int(dw[p, o]) != w:
                    fail("%s error of page %d offset %d aux %s is %d, table says %d" % (mode, p, o, is_aux, dw[p, o], w))
        for p, o, c in cells:
            c = np.uint8(c)
            d = t.compute_delta_page(p, c, dw[p, :], is_aux)
            for oo in ([o] if o is not None else range(256)):
                w0 = window(hgr, tm, ta, p, oo, is_aux)
                w = dist(mb, bo(hgr, oo, is_aux), pal.value, w0, window(hgr, tm, ta, p, oo, is_aux, int(c)))
                if int(d[oo]) != w - int(dw[p, oo]):
                    fail("%s predicted change of storing %d at page %d offset %d aux %s is %d, really %d" % (
                        mode, c, p, oo, is_aux, d[oo], w - int(dw[p, oo])))
                r = t.byte_pair_difference(t.byte_offset(oo, is_aux), t.packed[p, oo // 2], c)
                if int(r) != w:
                    fail("%s residual error of storing %d at page %d offset %d aux %s is %d, really %d" % (
                        mode, c, p, oo, is_aux, r, w))
        if not np.array_equal(before[0], s.packed) or not np.array_equal(before[1], t.packed):
            fail("%s: evaluating errors changed a picture (aux %s)" % (mode, is_aux))


def c09(models):
    lib.install_tables(screen)
    P = palette.Palette
    for m in models:
        v = m["vars"]
        hgr = m["obligation"].startswith("HGR")
        check_err(hgr, from_model(m, "source_main"), from_model(m, "source_aux"), from_model(m, "target_main"),
                  from_model(m, "target_aux"), [(int(v.get("page", 0)), None, int(v.get("content", 0)) & 255)],
                  P.NTSC if v.get("palette0", True) else P.IIGS)
    for pal in (P.NTSC, P.IIGS):
        for hgr in (True, False):
            for _ in range(3):
                check_err(hgr, image(), image(), image(), image(),
                          [(p, None, val()) for p in list(range(32)) + [0, 31] * 3], pal)


def hw(y, page):
    return 0x2000 * (page + 1) + (y % 8) * 1024 + ((y // 8) % 8) * 128 + (y // 64) * 40


def c12(models):
    for p in (0, 1):
        for y in range(192):
            for n, g in (("y_to_base_addr", lambda: screen.y_to_base_addr(y, p)),
                         ("Y_TO_BASE_ADDR", lambda: screen.Y_TO_BASE_ADDR[p][y])):
                try:
                    r = g()
                except Exception as e:
                    r = repr(e)
                if r != hw(y, p):
                    fail("%s of row %d page %d is %r, hardware %d" % (n, y, p, r, hw(y, p)))
    image = set()
    for y in range(192):
        for x in range(40):
            a = hw(y, 0) + x - 0x2000
            pg, o = a // 256, a % 256
            image.add((pg, o))
            got = (int(screen.X_Y_TO_PAGE[y, x]), int(screen.X_Y_TO_OFFSET[y, x]))
            if got != (pg, o):
                fail("(row %d, column %d) maps to %r, hardware (%d, %d)" % (y, x, got, pg, o))
            inv = (int(screen.PAGE_OFFSET_TO_Y[pg, o]), int(screen.PAGE_OFFSET_TO_X[pg, o]))
            if inv != (y, x):
                fail("(page %d, offset %d) maps back to %r, not (%d, %d)" % (pg, o, inv, y, x))
            for p in (0, 1):
                if screen.ADDR_TO_COORDS.get(hw(y, p) + x) != (p, y, x):
                    fail("address %d maps back to %r" % (hw(y, p) + x, screen.ADDR_TO_COORDS.get(hw(y, p) + x)))
    for p in range(32):
        for o in range(256):
            if bool(screen.SCREEN_HOLES[p, o]) != ((p, o) not in image):
                fail("screen hole mark of (%d, %d) is %r" % (p, o, screen.SCREEN_HOLES[p, o]))
    if len(screen.ADDR_TO_COORDS) != 2 * 192 * 40:
        fail("ADDR_TO_COORDS has %d addresses" % len(screen.ADDR_TO_COORDS))


def rejects(f, *a):
    try:
        f(*a)
    except ValueError:
        return True
    except Exception:
        return True
    return False


def c15(models):
    for sp in (1, 2):
        img = image()
        flat = screen.FlatMemoryMap(sp, img.reshape(8192).copy())
        mm = flat.to_memory_map()
        if not np.array_equal(mm.page_offset, img) or mm.screen_page != sp:
            fail("paged view of page %d differs from the image" % sp)
        back = mm.to_flat_memory_map()
        if not np.array_equal(back.data, img.reshape(8192)) or back.screen_page != sp:
            fail("flat -> paged -> flat is not the identity (page %d)" % sp)
        mm = screen.MemoryMap(sp, img.copy())
        back = mm.to_flat_memory_map().to_memory_map()
        if not np.array_equal(back.page_offset, img):
            fail("paged -> flat -> paged is not the identity (page %d)" % sp)
        addrs = list(range(8192 * sp, 8192 * sp + 8192)) + [8192 * sp - 1, 8192 * sp + 8192, 0, -1, 65535, 8192 * sp - 8192,
                                                          8192 * sp + 8193, 8192 * sp - 2, 3 * 8192 * sp, -8192, -1, -8191]
        for m in models:
            addrs.append(int(m["vars"].get("addr", 0)))
        ref = img.reshape(8192).copy()
        flat = screen.FlatMemoryMap(sp, ref.copy())
        for a in addrs:
            v = R.randrange(256)
            ok = 8192 * sp <= a < 8192 * sp + 8192
            rej = rejects(flat.write, a, v)
            if ok == rej:
                fail("write at address %d on page %d is %s" % (a, sp, "rejected" if rej else "accepted"))
            if ok:
                ref[a - 8192 * sp] = v
            if a % 97 == 0 or a % 256 in (0, 255) or not ok:
                if not np.array_equal(flat.data, ref):
                    fail("write at address %d does not change exactly that byte" % a)
        if not np.array_equal(flat.data, ref):
            fail("writes on page %d do not change exactly the addressed bytes" % sp)
        mm, ref = screen.MemoryMap(sp, img.copy()), img.copy()
        for p in range(32):
            for o in (0, 1, 127, 128, 254, 255, R.randrange(256)):
                v = R.randrange(256)
                mm.write(32 * sp + p, o, v)
                ref[p, o] = v
                if not np.array_equal(mm.page_offset, ref):
                    fail("paged write at page %d offset %d does not change exactly that byte" % (32 * sp + p, o))
        for z in (screen.FlatMemoryMap(sp).data, screen.MemoryMap(sp).page_offset):
            if z.any() or z.size != 8192:
                fail("default image is not 8 KB of zeros")
    bad = [0, 3, -1, 4, 100] + [int(m["vars"].get("screen_page", 0)) for m in models]
    for c in (screen.FlatMemoryMap, screen.MemoryMap):
        for sp in bad:
            if sp not in (1, 2) and not rejects(c, sp):
                fail("%s accepts screen page %d" % (c.__name__, sp))
    shapes = [(), (0,), (1,), (8191,), (8193,), (8192, 1), (1, 8192), (256, 32), (31, 256), (32, 255), (33, 256),
              (32, 257), (64, 128), (16384,), (2, 32, 256), (32, 16, 16), (32, 256), (8192,)]
    for m in models:
        v = m["vars"]
        if "n" in v and 0 <= int(v["n"]) < 100000:
            shapes.append((int(v["n"]),))
        if "rows" in v and 0 <= int(v["rows"]) < 3000 and 0 <= int(v.get("cols", 0)) < 3000:
            shapes.append((int(v["rows"]), int(v.get("cols", 0))))
    for c, good in ((screen.FlatMemoryMap, (8192,)), (screen.MemoryMap, (32, 256))):
        for sh in shapes:
            if rejects(c, 1, np.zeros(sh, dtype=np.uint8)) == (sh == good):
                fail("%s %s an image of shape %r" % (c.__name__, "rejects" if sh == good else "accepts", sh))


if __name__ == "__main__":
    {"C07": c07, "C08": c08, "C09": c09, "C12": c12, "C15": c15}[sys.argv[1]](lib.model_inputs())
    print("no failing input found")
