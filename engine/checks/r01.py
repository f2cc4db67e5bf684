"""R01: generated C++ cannot be called with wrong buffers.

Type-level witnesses. Each is a small program against the current runtime header that the compiler's type checker must
accept or must reject (the compiler is run with -fsyntax-only: nothing is executed). A rejected program is the twin of
an accepted one and differs from it in the one aspect that makes it wrong. Strides, shapes, constness and linear indices
are decided by static_assert over the header's own constexpr functions; strides of Eigen types also against a constexpr
model of Eigen's interface (engine/stubs)."""
import concurrent.futures, os, re, subprocess, tempfile
from wfa.program import REPO, VERIF, AnalysisBroken
from wfa.report import Check

SPAN = "components/runtime/wrenfold/span.h"

# A function of the form the C++ generator emits: input, required output, optional output.
GENERATED = """
template <typename In> void input(const In& x) { auto _x = wf::make_input_span<2, 3>(x); double v = _x(0, 1); (void)v; }
template <typename In> void input_written(const In& x) { auto _x = wf::make_input_span<2, 3>(x); _x(0, 1) = 2.0; }
template <typename Out> void output(Out&& y) { auto _y = wf::make_output_span<2, 3>(y); _y(1, 2) = 1.0; }
template <typename Out> void output_only_bound(Out&& y) { auto _y = wf::make_output_span<2, 3>(y); (void)_y; }
template <typename Out> void optional(Out&& y) { auto _y = wf::make_optional_output_span<2, 3>(y); if (static_cast<bool>(_y)) { _y(1, 2) = 1.0; } }
template <typename Out> void optional_only_bound(Out&& y) { auto _y = wf::make_optional_output_span<2, 3>(y); (void)_y; }
template <typename In> void quat_in(const In& x) { auto _x = wf::make_input_span<4, 1>(x); double v = _x(3, 0); (void)v; }
template <typename Out> void quat_out(Out&& y) { auto _y = wf::make_output_span<4, 1>(y); _y(3, 0) = 1.0; }
template <std::size_t R, std::size_t C, typename In> void in_rc(const In& x) { auto _x = wf::make_input_span<R, C>(x); (void)_x; }
template <std::size_t R, std::size_t C, typename Out> void out_rc(Out&& x) { auto _x = wf::make_output_span<R, C>(x); (void)_x; }
template <std::size_t R, std::size_t C, typename Out> void opt_rc(Out&& x) { auto _x = wf::make_optional_output_span<R, C>(x); (void)_x; }
template <typename S> using element = std::remove_pointer_t<decltype(std::declval<S>().data())>;
"""

DECL = """
  Eigen::Matrix<double, 2, 3> m23; Eigen::Matrix<double, 2, 3, Eigen::RowMajor> r23; Eigen::Matrix<double, 3, 2> m32;
  const Eigen::Matrix<double, 2, 3> c23 = m23; const Eigen::Matrix<double, 2, 3, Eigen::RowMajor> cr23 = r23;
  Eigen::MatrixXd mx(2, 3); Eigen::Matrix<double, 2, Eigen::Dynamic> m2x; Eigen::Matrix<double, Eigen::Dynamic, 3> mx3;
  Eigen::Map<Eigen::Matrix<double, 2, 3>> map(m23.data()); Eigen::Map<const Eigen::Matrix<double, 2, 3>> cmap(m23.data());
  Eigen::Quaterniond q; const Eigen::Quaterniond cq = q; Eigen::Vector4d v4; Eigen::Vector3d v3; Eigen::RowVector4d w4;
  double buf[6] = {}; double* ptr = buf; const double cbuf[6] = {};
  auto s23 = wf::make_span(&buf[0], wf::make_constant_value_pack<2, 3>(), wf::make_constant_value_pack<3, 1>());
  auto s32 = wf::make_span(&buf[0], wf::make_constant_value_pack<3, 2>(), wf::make_constant_value_pack<2, 1>());
  auto d23 = wf::make_span(&buf[0], wf::make_value_pack(2, 3), wf::make_constant_value_pack<3, 1>());
  auto h23 = wf::make_span(&buf[0], wf::make_value_pack(wf::constant<2>{}, 3), wf::make_constant_value_pack<3, 1>());
  auto sc23 = wf::make_span(&cbuf[0], wf::make_constant_value_pack<2, 3>(), wf::make_constant_value_pack<3, 1>());
  auto s6 = wf::make_span(&buf[0], wf::make_constant_value_pack<6>(), wf::make_constant_value_pack<1>());
  auto s231 = wf::make_span(&buf[0], wf::make_constant_value_pack<2, 3, 1>(), wf::make_constant_value_pack<3, 1, 1>());
  (void)m23, (void)r23, (void)m32, (void)c23, (void)cr23, (void)mx, (void)m2x, (void)mx3, (void)map, (void)cmap, (void)q, (void)cq, (void)v4, (void)v3, (void)w4;
  (void)ptr, (void)s23, (void)s32, (void)d23, (void)h23, (void)sc23, (void)s6, (void)s231;
"""

ACCEPT = [(g, s) for g, ss in {
    "input": ["input(m23)", "input(r23)", "input(c23)", "input(map)", "input(cmap)", "input(s23)", "input(sc23)", "quat_in(q)", "quat_in(cq)", "quat_in(v4)",
              "in_rc<3, 2>(m32)", "in_rc<3, 2>(s32)", "input(m23.block<2, 3>(0, 0))", "in_rc<1, 2>(m23.block<1, 2>(1, 1))"],
    "output": ["output(m23)", "output(r23)", "output(map)", "output(s23)", "quat_out(q)", "quat_out(v4)", "output_only_bound(m23)", "out_rc<3, 2>(m32)",
               "output(Eigen::Map<Eigen::Matrix<double, 2, 3>>(ptr))", "output_only_bound(s23)"],
    "optional": ["optional(m23)", "optional(r23)", "optional(map)", "optional(nullptr)", "optional(s23)", "optional_only_bound(nullptr)", "opt_rc<5, 7>(nullptr)"],
}.items() for s in ss]

REJECT = [(g, why, s) for g, wss in {
    "null": [("null input", ["input(nullptr)", "in_rc<4, 1>(nullptr)", "in_rc<1, 1>(nullptr)"]),
             ("null required output", ["output(nullptr)", "output_only_bound(nullptr)", "out_rc<4, 1>(nullptr)", "out_rc<1, 1>(nullptr)"])],
    "shape": [("transposed or different shape", [
        "input(m32)", "output(m32)", "optional(m32)", "input(s32)", "output(s32)", "optional(s32)", "in_rc<2, 2>(m23)", "in_rc<3, 3>(m23)", "out_rc<2, 2>(m23)",
        "out_rc<3, 3>(m23)", "opt_rc<2, 2>(m23)", "opt_rc<3, 3>(m23)", "in_rc<2, 4>(r23)", "in_rc<1, 3>(r23)", "in_rc<6, 1>(m23)", "in_rc<1, 6>(s23)", "out_rc<2, 4>(s23)",
        "in_rc<1, 4>(v4)", "in_rc<4, 1>(w4)", "in_rc<3, 1>(v4)", "out_rc<4, 1>(v3)", "input(map.transpose())"]),
        ("quaternion where it is not a 4x1 vector", ["in_rc<3, 1>(q)", "in_rc<1, 4>(q)", "out_rc<3, 1>(q)", "out_rc<2, 2>(q)", "in_rc<4, 2>(q)", "opt_rc<5, 1>(q)"]),
        ("shape unknown at compile time", ["input(mx)", "input(m2x)", "input(mx3)", "output(mx)", "optional(mx)", "input(d23)", "output(d23)", "input(h23)"]),
        ("different number of dimensions", ["input(s6)", "input(s231)", "output(s6)", "output(s231)"])],
    "read-only": [("read-only output", ["output(c23)", "output(cr23)", "output(cmap)", "output(sc23)", "quat_out(cq)"]),
                  ("read-only output that is only bound", ["output_only_bound(c23)", "output_only_bound(cr23)", "output_only_bound(cmap)", "output_only_bound(sc23)", "out_rc<4, 1>(cq)"]),
                  ("read-only optional output", ["optional(c23)", "optional(cr23)", "optional(cmap)", "optional(sc23)", "optional_only_bound(c23)", "optional_only_bound(cmap)", "optional_only_bound(sc23)"]),
                  ("write through an input", ["input_written(m23)", "input_written(c23)", "input_written(r23)", "input_written(map)", "input_written(cmap)", "input_written(sc23)"])],
    "conversion": [("raw pointer or array without a conversion", ["input(ptr)", "output(ptr)", "optional(ptr)", "input(buf)", "output(buf)", "input(0)", "output(0)"]),
                   ("const lost", ["decltype(s23) back = sc23; (void)back", "decltype(s23) back = s23.as_const(); (void)back", "s23.as_const()(0, 0) = 1.0"]),
                   ("span of another shape", ["decltype(s23) back = s32; (void)back", "decltype(sc23) back = s32; (void)back"]),
                   ("wrong number of indices", ["s23(1) = 1.0", "s23(0, 1, 2) = 1.0", "s23[1] = 1.0", "s231(0, 0) = 1.0"])],
}.items() for why, ss in wss for s in ss]

# decided at compile time over the header's constexpr functions
ASSERTS = []


def A(group, expr):
    ASSERTS.append((group, expr))


for o, ty in (("m23", "Eigen::Matrix<double, 2, 3>"), ("r23", "Eigen::Matrix<double, 2, 3, Eigen::RowMajor>"), ("map", "Eigen::Map<Eigen::Matrix<double, 2, 3>>"),
              ("cmap", "Eigen::Map<const Eigen::Matrix<double, 2, 3>>")):
    for c in ("", "const "):
        A("read-only", "std::is_const_v<element<decltype(wf::make_input_span<2, 3>(std::declval<%s%s&>()))>>" % (c, ty))
for ty in ("Eigen::Matrix<double, 2, 3>", "Eigen::Matrix<double, 2, 3, Eigen::RowMajor>", "Eigen::Map<Eigen::Matrix<double, 2, 3>>"):
    A("read-only", "!std::is_const_v<element<decltype(wf::make_output_span<2, 3>(std::declval<%s&>()))>>" % ty)
A("read-only", "std::is_const_v<element<decltype(wf::make_input_span<4, 1>(std::declval<const Eigen::Quaterniond&>()))>>")
A("read-only", "!std::is_const_v<element<decltype(wf::make_output_span<4, 1>(std::declval<Eigen::Quaterniond&>()))>>")
for r, c in ((2, 3), (3, 2), (1, 1), (4, 1), (1, 5), (6, 6)):
    for rm in (False, True):
        if rm and c == 1 or not rm and r == 1:
            continue
        ty = "Eigen::Matrix<double, %d, %d%s>" % (r, c, ", Eigen::RowMajor" if rm else "")
        for f, cv in (("input", "const "), ("output", ""), ("optional_output", "")):
            S = "decltype(wf::make_%s_span<%d, %d>(std::declval<%s%s&>()))" % (f, r, c, cv, ty)
            A("shape", "std::is_same_v<std::decay_t<decltype(std::declval<%s>().dimensions())>, wf::constant_value_pack<%d, %d>>" % (S, r, c))
            A("stride", "std::is_same_v<std::decay_t<decltype(std::declval<%s>().strides())>, wf::constant_value_pack<%d, %d>>" % (S, c if rm else 1, 1 if rm else r))

PRELUDE = """
template <typename S, std::size_t... D> constexpr bool index2(S s, std::size_t a, std::size_t b) {
  for (std::size_t i = 0; i < 6; ++i) for (std::size_t j = 0; j < 6; ++j)
    if (s.compute_index(i, j) != static_cast<std::ptrdiff_t>(i * a + j * b) || s.compute_index(static_cast<int>(i), static_cast<short>(j)) != static_cast<std::ptrdiff_t>(i * a + j * b)) return false;
  return true; }
template <typename S> constexpr bool index1(S s, std::size_t a) { for (std::size_t i = 0; i < 9; ++i) if (s.compute_index(i) != static_cast<std::ptrdiff_t>(i * a)) return false; return true; }
template <typename S> constexpr bool index3(S s, std::size_t a, std::size_t b, std::size_t c) {
  for (std::size_t i = 0; i < 4; ++i) for (std::size_t j = 0; j < 4; ++j) for (std::size_t k = 0; k < 4; ++k)
    if (s.compute_index(i, j, k) != static_cast<std::ptrdiff_t>(i * a + j * b + k * c)) return false;
  return true; }
template <typename S> constexpr bool index4(S s, std::size_t a, std::size_t b, std::size_t c, std::size_t d) {
  for (std::size_t i = 0; i < 3; ++i) for (std::size_t j = 0; j < 3; ++j) for (std::size_t k = 0; k < 3; ++k) for (std::size_t l = 0; l < 3; ++l)
    if (s.compute_index(i, j, k, l) != static_cast<std::ptrdiff_t>(i * a + j * b + k * c + l * d)) return false;
  return true; }
constexpr double data[64] = {};
template <typename... S> constexpr auto at(S... s) { return wf::make_span(&data[0], wf::make_value_pack(s...), wf::make_value_pack(s...)); }
constexpr bool access2() { double b[24] = {}; auto s = wf::make_span(&b[0], wf::make_constant_value_pack<4, 6>(), wf::make_constant_value_pack<1, 4>());
  for (int i = 0; i < 4; ++i) for (int j = 0; j < 6; ++j) { if (&s(i, j) != &b[0] + (i + 4 * j)) return false; }
  auto t = s.block(wf::make_constant_value_pack<1, 2>(), wf::make_constant_value_pack<2, 3>());
  for (int i = 0; i < 2; ++i) for (int j = 0; j < 3; ++j) if (&t(i, j) != &s(i + 1, j + 2)) return false;
  auto u = t.block(wf::make_value_pack(1, 1), wf::make_value_pack(1, 2));
  return &u(0, 1) == &s(2, 4) && u.rows() == 1 && u.cols() == 2 && t.rows() == 2 && t.cols() == 3 && u.template stride<0>() == 1 && u.template stride<1>() == 4 && s.as_const().data() == s.data() && static_cast<bool>(s); }
constexpr bool access1() { double b[12] = {}; auto s = wf::make_span(&b[0], wf::make_value_pack(6), wf::make_value_pack(2));
  for (int i = 0; i < 6; ++i) if (&s[i] != &b[2 * i] || &s(i) != &b[2 * i]) return false;
  auto w = wf::make_array_span(b); if (w.rows() != 12 || &w[5] != &b[5]) return false; return true; }
constexpr bool written() { double b[6] = {}; auto s = wf::make_span(&b[0], wf::make_constant_value_pack<2, 3>(), wf::make_constant_value_pack<3, 1>());
  auto i = wf::make_input_span<2, 3>(s); auto o = wf::make_output_span<2, 3>(s); auto p = wf::make_optional_output_span<2, 3>(s);
  o(1, 2) = 4; p(0, 1) = 3; return i(1, 2) == 4 && i(0, 1) == 3 && b[5] == 4 && b[1] == 3 && static_cast<bool>(p); }
constexpr bool nulls() { auto n = nullptr; auto p = wf::make_optional_output_span<2, 3>(n); return !static_cast<bool>(p) && p.data() == nullptr; }
constexpr bool order() { auto d = wf::make_value_pack(wf::constant<2>{}, 8, wf::dynamic(3)); return d.get<0>().value() == 2 && d.get<1>().value() == 8 && d.get<2>().value() == 3; }
template <std::size_t... V> constexpr bool constants(std::initializer_list<std::size_t> v) { auto d = wf::make_constant_value_pack<V...>(); (void)d; std::size_t k[] = {V...}; std::size_t i = 0; for (auto x : v) if (k[i++] != x) return false; return true; }
"""
K = "wf::constant<%d>{}"
for a, b in ((1, 1), (3, 1), (1, 4), (7, 2), (0, 5), (5, 0), (6, 36), (3000000000, 1), (1, 5000000000)):
    A("index", "index2(at(%s, %s), %d, %d)" % (K % a, K % b, a, b))
    A("index", "index2(at(std::size_t{%d}, %s), %d, %d)" % (a, K % b, a, b))
    A("index", "index2(at(%s, std::size_t{%d}), %d, %d)" % (K % a, b, a, b))
    A("index", "index2(at(std::size_t{%d}, std::size_t{%d}), %d, %d)" % (a, b, a, b))
for a in (1, 2, 5, 3000000000):
    A("index", "index1(at(%s), %d)" % (K % a, a))
    A("index", "index1(at(std::size_t{%d}), %d)" % (a, a))
for a, b, c in ((12, 4, 1), (1, 2, 6), (5, 7, 11), (1, 100, 10)):
    A("index", "index3(at(%s, %s, %s), %d, %d, %d)" % (K % a, K % b, K % c, a, b, c))
    A("index", "index3(at(%s, std::size_t{%d}, %s), %d, %d, %d)" % (K % a, b, K % c, a, b, c))
    A("index", "index4(at(%s, std::size_t{%d}, %s, 13), %d, %d, %d, 13)" % (K % a, b, K % c, a, b, c))
for e in ("access2()", "access1()", "written()", "order()", "at(2, 3).dimension<0>() == 2 && at(2, 3).dimension<1>() == 3 && at(2, 3).stride<0>() == 2 && at(2, 3).stride<1>() == 3"):
    A("index", e)
A("null", "nulls()")
A("shape", "wf::constant_value_pack_axis_v<0, wf::constant_value_pack<7, 8, 9>> == 7 && wf::constant_value_pack_axis_v<1, wf::constant_value_pack<7, 8, 9>> == 8 && wf::constant_value_pack_axis_v<2, wf::constant_value_pack<7, 8, 9>> == 9")
CD = "wf::span<%sdouble, wf::constant_value_pack<2, 3>, wf::constant_value_pack<3, 1>>"
A("read-only", "std::is_convertible_v<%s, %s>" % (CD % "", CD % "const "))
A("read-only", "!std::is_convertible_v<%s, %s>" % (CD % "const ", CD % ""))
A("read-only", "!std::is_constructible_v<%s, %s>" % (CD % "", CD % "const "))

# with the model of Eigen: strides that are only known at run time
MODEL = []
for rm in (False, True):
    for o, i in ((5, 1), (7, 2), (2, 3), (11, 4)):
        for so, si in ((o, i), (-1, i), (o, -1), (-1, -1)):
            ty = "Eigen::Mat<double, 2, 3, %s, %d, %d>" % ("true" if rm else "false", so, si)
            for f in ("input", "output", "optional_output"):
                body = "[]() { double b[64] = {}; %s m(&b[0], %d, %d); auto s = wf::make_%s_span<2, 3>(m); return s.data() == &b[0] && s.template stride<0>() == %d && s.template stride<1>() == %d && s.rows() == 2 && s.cols() == 3; }()" % (
                    ty, o, i, f, o if rm else i, i if rm else o)
                MODEL.append(("stride", body))
for f in ("input", "output"):
    MODEL.append(("stride", "[]() { double b[4] = {}; Eigen::Quaternion<double> q(&b[0]); auto s = wf::make_%s_span<4, 1>(q); for (int i = 0; i < 4; ++i) if (&s(i, 0) != &b[i]) return false; return s.rows() == 4 && s.cols() == 1; }()" % f))

HEAD = "#include <cstddef>\n#include <utility>\n#include <initializer_list>\n#define WF_SPAN_EIGEN_SUPPORT\n#include <wrenfold/span.h>\n#define MUST(...) static_assert((__VA_ARGS__), \"\")\n"


def compile_(src, stub):
    eig = "/usr/include/eigen3" if os.path.isdir("/usr/include/eigen3/Eigen") else os.path.join(REPO, "dependencies/eigen")
    inc = ["-I", os.path.join(VERIF, "engine/stubs")] if stub else ["-isystem", eig]
    r = subprocess.run(["clang++", "-std=c++17", "-fsyntax-only", "-w", "-ferror-limit=0", "-fconstexpr-steps=4000000", "-x", "c++", "-", "-I",
                        os.path.join(REPO, "components/runtime")] + inc, input=src, capture_output=True, text=True, timeout=300)
    errs = [l for l in r.stderr.splitlines() if " error: " in l or "fatal error" in l]
    return r.returncode, errs, r.stderr


def program(stmt):
    return HEAD + GENERATED + "void witness() {" + DECL + "\n" + stmt + ";\n}\n"


def line_of(group):
    names = {"input": "make_input_span", "output": "make_output_span", "optional": "make_optional_output_span", "null": "make_output_span", "shape": "convert_to_span",
             "read-only": "make_output_span", "conversion": "convert_to_span", "index": "compute_index", "stride": "eigen_row_stride"}
    try:
        for k, l in enumerate(open(os.path.join(REPO, SPAN)), 1):
            if re.search(r"\b%s\b" % names[group], l) and "*" not in l.split(names[group])[0]:
                return "%s:%d" % (SPAN, k)
    except OSError:
        pass
    return SPAN


def run(tier):
    ck = Check("R01", tier, __doc__)
    if not os.path.exists(os.path.join(REPO, SPAN)):
        raise AnalysisBroken("runtime header not found")
    jobs = []
    jobs.append(("base", None, None, program("")))
    for g, s in ACCEPT:
        jobs.append(("accept", g, s, program(s)))
    for g, why, s in REJECT:
        jobs.append(("reject", g, (why, s), program(s)))
    lines = [HEAD + GENERATED + PRELUDE, []]
    src = HEAD + GENERATED + PRELUDE
    first = src.count("\n") + 1
    src += "".join("MUST(%s);\n" % e for g, e in ASSERTS)
    jobs.append(("asserts", first, ASSERTS, src))
    m = HEAD
    mfirst = m.count("\n") + 1
    jobs.append(("model", mfirst, MODEL, m + "".join("MUST(%s);\n" % e for g, e in MODEL)))
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda j: compile_(j[3], j[0] == "model"), jobs))
    rc, errs, text = res[0]
    if rc:
        # the accepted programs are the guarantee that right buffers can be passed; without them nothing is decided
        raise AnalysisBroken("the runtime header does not compile with its witnesses: %s" % (errs[:1] or text[-200:]))
    for (kind, g, what, src), (rc, errs, text) in zip(jobs[1:], res[1:]):
        if kind == "accept":
            ck.check(rc == 0, "accepted: " + g, what, line_of(g), "a call with right buffers does not compile: %s" % (errs[:1],))
        elif kind == "reject":
            why, s = what
            ck.check(rc != 0, "rejected: " + g, "%s: %s" % (why, s), line_of(g), "a call that must not compile does (%s)" % why)
        else:
            bad = {}
            other = []
            for l in errs:
                mt = re.match(r"<stdin>:(\d+):\d+: error: (.*)", l)
                if mt and "static assertion failed" in mt.group(2):
                    bad[int(mt.group(1)) - g] = mt.group(2)
                elif mt and "constant expression" in mt.group(2):
                    other.append((int(mt.group(1)) - g, l))
                else:
                    other.append((None, l))
            if kind == "model" and other and not bad:
                ck.notes.append("undecided: the header uses parts of Eigen the model lacks: %s" % (other[0][1],))
                continue
            if other and not bad:
                raise AnalysisBroken("compile-time evaluation failed: %s" % (other[0][1],))
            for k, (gr, e) in enumerate(what):
                ck.check(k not in bad, ("model " if kind == "model" else "") + gr, e, line_of(gr), "does not hold of the header's types and constexpr functions")
    ck.analysed({"witness %s" % (j[2],) for j in jobs if j[0] in ("accept", "reject")})
    ck.assumptions.append("user-written convert_to_span specialisations check their own dimensions, as the header documents; Eigen's real stride and data members behave as in the model")
    ck.require("accepted: input", 10)
    ck.require("rejected: shape", 30)
    ck.require("index", 40)
    return ck.finish(None)
