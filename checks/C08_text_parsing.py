"""C08 - textual vectors and rotations: accepted text means exactly what it says, anything else is refused."""
from pbt import *
import rainbow.math.quaternion as Q
import rainbow.math.vector3 as V3


def number():
    """(text, value) of a decimal number in the accepted notation."""
    ints = st.one_of(st.integers(0, 99999), st.integers(0, 10**18)).map(str)
    frac = st.tuples(ints, st.one_of(st.text("0123456789", min_size=1, max_size=6), st.text("0123456789", min_size=15, max_size=20))).map(lambda t: t[0] + "." + t[1])
    mant = st.one_of(ints, frac)
    expo = st.tuples(mant, st.sampled_from("+-"), st.one_of(st.integers(0, 20).map(str), st.just("05"))).map(
        lambda t: t[0] + "e" + t[1] + t[2])
    py = st.floats(-1e6, 1e6).map(repr)
    return st.one_of(st.tuples(st.sampled_from(["", "-"]), st.one_of(mant, mant, expo)).map(lambda t: t[0] + t[1]), py)


def case(d, s):
    return d(st.sampled_from([s, s.upper(), s.capitalize()]))


def refused(f, s):
    try:
        r = f(s)
    except (AssertionError, ValueError):
        return
    fail(f"malformed text {s!r} was accepted as {r!r}")


@sub(quick=600)
def vector_lists(d):
    """'[a, b, c, ...]' with decimals, signs, exponents, blanks -> exactly those numbers (first three / first four)"""
    n = d.int(3, 6)
    toks = [d(number()) for _ in range(n)]
    sep = d(st.sampled_from([",", ", ", " , ", ",  "]))
    s = d(st.sampled_from(["[", "[ "])) + sep.join(toks) + d(st.sampled_from(["]", " ]", "] "]))
    vals = [float(t) for t in toks]
    close(V3.from_string(case(d, s)), vals[:3], atol=0, rtol=1e-15, msg="vector from text", s=s)
    if n >= 4:
        close(Q.from_string(s), vals[:4], atol=0, rtol=1e-15, msg="quaternion from text", s=s)
    else:
        refused(Q.from_string, s)
    short = "[" + ",".join(toks[:2]) + "]"
    refused(V3.from_string, short)
    refused(Q.from_string, short)
    d.label("exponent" if "e" in s else "fraction" if "." in s else "integers")


@sub(quick=600)
def rotations(d):
    """'rx:a' 'ry:a' 'rz:a' 'ru:a:[x,y,z]' in any letter case -> rotation by that many degrees"""
    t = d(number())
    a = np.deg2rad(float(t))
    if abs(a) > 1e5:
        d.nontrivial(False)
        return
    k = d.int(0, 2)
    gap = d(st.sampled_from(["", " "]))
    s = case(d, "r" + "xyz"[k] + ":") + gap + t
    close(Q.from_string(s), np.concatenate(([np.cos(a / 2)], np.sin(a / 2) * np.eye(3)[k])), atol=1e-9,
          msg="axis rotation from text", s=s)
    ax = [d(number()) for _ in range(3)]
    u = np.array([float(x) for x in ax])
    if 1e-100 < np.linalg.norm(u) < 1e100:
        s = case(d, "ru:") + gap + t + ":" + "[" + ",".join(ax) + "]"
        close(Q.from_string(s), np.concatenate(([np.cos(a / 2)], np.sin(a / 2) * u / np.linalg.norm(u))), atol=1e-9,
              msg="rotation about an axis from text", s=s)
    close(Q.from_string(case(d, "identity")), [1, 0, 0, 0])


@sub(quick=300)
def keywords(d):
    """keywords and random ranges of vectors, any letter case"""
    for w, v in (("ones", np.ones(3)), ("zero", np.zeros(3)), ("i", [1, 0, 0]), ("j", [0, 1, 0]), ("k", [0, 0, 1])):
        close(V3.from_string(case(d, w)), v, msg=w)
    a, b = d(number()), d(number())
    lo, hi = sorted((a, b), key=float)
    if abs(float(hi)) < 1e100 and abs(float(lo)) < 1e100:
        r = V3.from_string(case(d, "rand:") + lo + ":" + hi)
        ensure(r.shape == (3,) and np.all(r >= float(lo)) and np.all(r <= float(hi)), "rand range", r=r, lo=lo, hi=hi)


def bad_number():
    return st.sampled_from(["", "a", "1a", "--1", "1..2", "01", "-02", "+1", "1e", "e5", "1,", ".", "1.", ".5",
                            "nan", "inf", "0x10", "1e--2", "2+2", "x", "1 2", "1;2"])


@sub(quick=600)
def malformed(d):
    """well-formed text with one defect (bad number, missing bracket, prefix/suffix, unknown keyword) is refused"""
    nums = [d(number()) for _ in range(4)]
    kind = d.int(0, 6)
    d.label(kind)
    if kind == 0:
        k = d.int(0, 3)
        nums[k] = d(bad_number())
        s = "[" + ",".join(nums) + "]"
    elif kind == 1:
        s = "[" + ",".join(nums)
    elif kind == 2:
        s = ",".join(nums) + "]"
    elif kind == 3:
        s = "[" + ",".join(nums) + "]" + d(st.sampled_from(["a", "1", "[", "]", ",", ":"]))
    elif kind == 4:
        s = d(st.sampled_from(["a", "1", "[", "]", ",", ":", "rx", "rand"])) + "[" + ",".join(nums) + "]"
    elif kind == 5:
        s = d(st.text("abcdefghijklmnopqrstuvwxyz:[],.", max_size=8))
        if s in ("i", "j", "k", "ones", "zero", "identity"):
            s += "q"
    else:
        s = d(st.sampled_from(["rx", "rx:", "rq:1", "rw:90", "ru:90", "ru:90:", "ru:[1,0,0]", "ru:1:2", "rx:1:2",
                               "rand:1", "rand:", "rand:1:", "rand::1", "rand:1:2:3", "rx:[1,2,3]", "identity2",
                               "rrx:1", "xr:1", "ones1", "zeroi", "ru:a:[1,0,0]", "rx:" + d(bad_number()),
                               "rand:" + d(bad_number()) + ":2"]))
        if s == "rand:1:2":
            s = "q"
    refused(V3.from_string, s)
    refused(Q.from_string, s)


if __name__ == "__main__":
    sys.exit(main("C08"))
