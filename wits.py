"""Compile-time witnesses: each function (job, tmp) gives {'obligations', 'samples', 'viol', 'errors'}."""
import glob
import os
import re
import subprocess
from concurrent.futures import ThreadPoolExecutor
from engine import driver
from engine.witness import compile_only, viol

HARNESS = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'harness') + '/'


def must(j, tmp):
    """Programs which must compile (j.good) or must be refused (j.bad): (src, std, defs, what it says)."""
    out = {'obligations': 0, 'samples': [], 'viol': [], 'errors': []}
    todo = [x + (True,) for x in getattr(j, 'good', [])] + [x + (False,) for x in getattr(j, 'bad', [])]
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda x: compile_only(HARNESS + x[0], x[1], x[2]), todo))
    for (src, std, defs, what, want), (ok, err) in zip(todo, res):
        out['obligations'] += 1
        out['samples'].append('%s %s -std=%s: %s' % (src, ' '.join(defs), std, what))
        if ok != want:
            out['viol'].append(viol(what, err if want else '%s:1:1: error: accepted with %s' % (HARNESS + src, ' '.join(defs)), '-std=%s %s' % (std, ' '.join('-D' + d for d in defs))))
    return out


# the oldest standard each header documents (README.md); all others: C++11
MIN = {'generator': 20, 'pmr_allocator': 17, 'strutil': 17, 'transparent_umap': 20}
X = ('struct X { int i; }; inline bool operator==(const X& a, const X& b) { return a.i == b.i; } inline bool operator!=(const X& a, const X& b) { return a.i != b.i; } '
     'inline bool operator<(const X& a, const X& b) { return a.i < b.i; }\nstruct M { M(); M(M&&) noexcept; M& operator=(M&&) noexcept; ~M(); };\n')
# members of the class templates, used with nothing else included than what the documentation of the header asks for
USE = {
    'small_vector': ['template class itlib::small_vector<int>;', 'template class itlib::small_vector<X, 5, 3>;', 'M m(itlib::small_vector<M>& v) { v.push_back(M()); v.emplace_back(); v.erase(v.begin()); v.reserve(100); v.shrink_to_fit(); itlib::small_vector<M> w(static_cast<itlib::small_vector<M>&&>(v)); return static_cast<M&&>(w.back()); }'],
    'static_vector': ['template class itlib::static_vector<int, 5>;', 'template class itlib::static_vector<X, 1>;', 'void m(itlib::static_vector<M, 4>& v) { v.push_back(M()); v.emplace_back(); v.erase(v.begin()); itlib::static_vector<M, 4> w(static_cast<itlib::static_vector<M, 4>&&>(v)); }'],
    'pod_vector': ['template class itlib::pod_vector<int>;', 'template class itlib::pod_vector<unsigned char>;', 'template class itlib::pod_vector<X>;'],
    'flat_set': ['template class itlib::flat_set<int>;', 'template class itlib::flat_set<X>;', 'bool m(itlib::flat_set<int>& s) { s.insert(3); s.emplace(4); return s.find(5) == s.end() || s.count(1) || s == s; }'],
    'flat_map': ['template class itlib::flat_map<int, X>;', 'template class itlib::flat_map<X, int>;', 'int m(itlib::flat_map<int, int>& s) { s.insert({3, 4}); s.emplace(4, 4); return s.find(5) == s.end() ? s[4] : s.at(4); }'],
    'dynamic_bitset': ['#include <vector>\n#include <cstdint>\ntemplate class itlib::dynamic_bitset<std::vector<uint8_t>>;', '#include <vector>\n#include <cstdint>\ntemplate class itlib::dynamic_bitset<std::vector<uint64_t>>;', 'template class itlib::dynamic_bitset<>;'],
    'span': ['template class itlib::span<int>;', 'template class itlib::span<const X>;', 'int m() { int a[3] = {1, 2, 3}; return itlib::make_span(a).subspan(1).front(); }'],
    'stride_span': ['template class itlib::stride_span<int>;', 'template class itlib::stride_span<const X>;'],
    'poly_span': ['template class itlib::poly_span<int&>;', 'template class itlib::poly_span<const X&>;'],
    'memory_view': ['template class itlib::memory_view<int>;', 'template class itlib::const_memory_view<X>;'],
    'any': ['template class itlib::any<>;', 'int m() { itlib::any<> a = 5; itlib::any<> b = a; a.emplace<X>(); return itlib::any_cast<int>(b); }'],
    'expected': ['template class itlib::expected<%s>;' % t for t in ('int, X', 'X, int', 'void, int', 'X, void', 'X&, int', 'void, void', 'M, X')],
    'ufunction': ['template class itlib::ufunction<int(X)>;', 'int m() { int i = 3; itlib::ufunction<int(int)> f = [i](int j) { return i + j; }; return f ? f(3) : 0; }'],
    'data_mutex': ['#include <mutex>\nint m(itlib::data_mutex<X, std::mutex>& d) { auto l = d.unique_lock(); auto t = d.try_unique_lock(); return l->i + (t ? 1 : 0); }'],
    'atomic': ['template class itlib::atomic_relaxed_counter<int>;', 'template class itlib::atomic_relaxed_counter<unsigned char>;'],
    'atomic_shared_ptr_storage': ['template class itlib::atomic_shared_ptr_storage<X>;'],
    'mutex': ['bool m(itlib::strong_try_rec_mutex& m) { if (!m.try_lock()) return false; m.unlock(); return true; }'],
    'shared_from': ['struct S : public itlib::enable_shared_from { int i; };'],
    'make_ptr': ['int m() { auto p = itlib::make_shared(X{3}); auto q = itlib::make_unique(X{4}); return p->i + q->i; }'],
    'mem_streambuf': ['#include <string>\ntemplate class itlib::mem_ostreambuf<std::string>;', '#include <vector>\ntemplate class itlib::mem_ostreambuf<std::vector<char>>;', 'template class itlib::mem_istreambuf<char>;', 'template class itlib::mem_istreambuf<wchar_t>;'],
    'rstream': ['#include <istream>\ntemplate class itlib::basic_rstream<std::istream>; template class itlib::basic_redirect_rstream<std::istream>;'],
    'generator': ['itlib::generator<int> g() { co_yield 1; }\nitlib::generator<X&> h(X& x) { co_yield x; }\nint m() { int s = 0; for (int i : g()) s += i; return s; }'],
    'pmr_allocator': ['template class itlib::pmr_allocator<>;', 'X* m(itlib::pmr_allocator<> a) { auto p = a.new_object<X>(); a.delete_object(p); return a.allocate_object<X>(3); }'],
    'transparent_umap': ['#include <string>\n#include <functional>\nstruct H { using is_transparent = void; unsigned long operator()(const X& x) const; }; template class itlib::transparent_umap<X, int, H, std::equal_to<>>;'],
    'throw_ex': ['#include <stdexcept>\nvoid m() { itlib::throw_ex<std::runtime_error>() << "a" << 3; }'],
    'sentry': ['void f(int&);\nvoid m(int& i) { auto s = itlib::make_sentry([&i] { f(i); }); }'],
    'qalgorithm': ['#include <vector>\nbool m(std::vector<int>& v) { itlib::erase_all(v, 3); itlib::erase_first(v, 4); return itlib::qfind(v, 5) != v.end() || itlib::pfind(v, 6) || itlib::qall_of(v); }'],
    'strutil': ['bool m(std::string_view a) { return itlib::starts_with(a, "x") || itlib::ends_with(itlib::remove_prefix_all(a, "y"), "z"); }'],
    'time_t': ['#include <chrono>\n#include <string>\nlong m() { auto t = itlib::time_t::now() + std::chrono::hours(1); return (long)itlib::strftime("%Y", t.gmtime()).length(); }'],
    'utility': ['void m(X& x) { X y = itlib::force_move(x); (void)y; }'],
    'type_traits': ['static_assert(itlib::is_noop_convertible<int, unsigned>::value, "");'],
}
MACRO = re.compile(r'^I?_?ITLIB_\w*$')


def headers():
    return sorted(os.path.basename(h)[:-4] for h in glob.glob(os.path.join(driver.REPO, 'include', 'itlib', '*.hpp')))


def inc(*hs):
    return ''.join('#include <itlib/%s.hpp>\n' % h for h in hs)


def programs(j, hs):
    """(what, text, std, compilers)"""
    stds = (11, 14, 17, 20) if not getattr(j, 'deep', False) else (11, 14, 17, 20, 23)
    both = ('g++', 'clang++')
    out = []
    for s in stds:
        ok = [h for h in hs if MIN.get(h, 11) <= s]
        for h in ok:
            # (transparent_umap: gcc needs C++20, clang not)
            if s in (MIN.get(h, 11), 20) or getattr(j, 'deep', False):
                out.append(('%s.hpp can be included first, alone and twice' % h, inc(h, h) + 'int the_end;\n', s, both))
                for u in USE.get(h, []):
                    out.append(('%s.hpp needs nothing else to be used' % h, inc(h) + X + u + '\n', s, both))
        out.append(('all headers can be included together', inc(*ok) + 'int the_end;\n', s, both))
        out.append(('all headers can be included together in any order', inc(*reversed(ok)) + inc(*ok) + 'int the_end;\n', s, both))
    if getattr(j, 'deep', False):
        out += [('%s.hpp and %s.hpp can be included together' % (a, b), inc(a, b) + 'int the_end;\n', 20, ('clang++',)) for a in hs for b in hs if a != b]
    return out


def hygiene(j, tmp):
    out = {'obligations': 0, 'samples': [], 'viol': [], 'errors': []}
    hs = headers()
    todo = [(i, w, t, s, c) for i, (w, t, s, cs) in enumerate(programs(j, hs)) for c in cs]

    def one(p):
        i, w, t, s, c = p
        extra = ['-fcoroutines'] if c == 'g++' and s >= 20 else []
        return p, compile_only(None, 'c++%d' % s, cxx=c, extra=extra, text=t, tmp=tmp, name='h%d_%s_%d.cpp' % (i, c[:1], s))
    with ThreadPoolExecutor(8) as ex:
        for p, (ok, err) in ex.map(one, todo):
            out['obligations'] += 1
            if len(out['samples']) < 40:
                out['samples'].append('%s [%s -std=c++%d]' % (p[1], p[4], p[3]))
            if not ok:
                out['viol'].append(viol(p[1], err, '%s -std=c++%d: %s' % (p[4], p[3], p[2].replace('\n', ' ')[:200])))
    return out


def odr(j, tmp):
    """Many translation units may include the headers: none defines anything with strong external linkage, nor state of its own per translation unit."""
    out = {'obligations': 0, 'samples': [], 'viol': [], 'errors': []}
    for s in (11, 17, 20):
        hs = [h for h in headers() if MIN.get(h, 11) <= s]
        p = os.path.join(tmp, 'odr%d.cpp' % s)
        open(p, 'w').write(inc(*hs))
        r = subprocess.run(['clang++', '-std=c++%d' % s, '-w', '-S', '-emit-llvm', '-o', '-', '-I', os.path.join(driver.REPO, 'include'), p], capture_output=True, text=True)
        if r.returncode:
            out['viol'].append(viol('all headers can be included together', r.stderr, '-std=c++%d' % s))
            continue
        n = 0
        for l in r.stdout.splitlines():
            m = re.match(r'define (.*?)@("?[\w.$]+"?)\(', l)
            if m:
                n += 1
                if not re.search(r'\b(linkonce|linkonce_odr|weak|weak_odr|internal|private|available_externally)\b', m.group(1)):
                    out['viol'].append(odrviol('a header defines the function %s in every translation unit which includes it' % demangle(m.group(2)), s, hs, tmp, m.group(2)))
            m = re.match(r'@("?[\w.$]+"?) = (.*?)\b(global|constant)\b', l)
            if m:
                n += 1
                k = m.group(2)
                if not re.search(r'\b(external|linkonce|linkonce_odr|weak|weak_odr|internal|private|appending|available_externally)\b', k):
                    out['viol'].append(odrviol('a header defines the variable %s in every translation unit which includes it' % demangle(m.group(1)), s, hs, tmp, m.group(1)))
                elif 'internal' in k and m.group(3) == 'global' and '5itlib' in m.group(1):
                    out['viol'].append(odrviol('the variable %s is another one in every translation unit' % demangle(m.group(1)), s, hs, tmp, m.group(1)))
        out['obligations'] += n + len(hs)
        out['samples'].append('-std=c++%d: %d headers, %d definitions emitted' % (s, len(hs), n))
    return out


def demangle(n):
    return subprocess.run(['c++filt', n.strip('"')], capture_output=True, text=True).stdout.strip()


def odrviol(msg, s, hs, tmp, sym):
    for h in hs:
        p = os.path.join(tmp, 'odr_one.cpp')
        open(p, 'w').write(inc(h))
        r = subprocess.run(['clang++', '-std=c++%d' % s, '-w', '-S', '-emit-llvm', '-o', '-', '-I', os.path.join(driver.REPO, 'include'), p], capture_output=True, text=True)
        if '@' + sym in r.stdout:
            return viol(msg, 'include/itlib/%s.hpp:1:1: error: %s' % (h, msg), '-std=c++%d' % s)
    return viol(msg, '', '-std=c++%d' % s)


def macros(j, tmp):
    """Macros which the headers leave behind have names of itlib."""
    out = {'obligations': 0, 'samples': [], 'viol': [], 'errors': []}
    for h in headers():
        s = max(MIN.get(h, 11), 11)
        src = os.path.join(driver.REPO, 'include', 'itlib', h + '.hpp')
        p = os.path.join(tmp, 'm_%s.cpp' % h)
        open(p, 'w').write(inc(h))
        r = subprocess.run(['clang++', '-std=c++%d' % s, '-w', '-E', '-dD', '-I', os.path.join(driver.REPO, 'include'), p], capture_output=True, text=True)
        cur, line, mac = '', 0, {}
        for l in r.stdout.splitlines():
            m = re.match(r'# (\d+) "([^"]*)"', l)
            if m:
                line, cur = int(m.group(1)) - 1, m.group(2)
                continue
            line += 1
            m = re.match(r'#define (\w+)', l)
            if m and cur == src:
                mac[m.group(1)] = line
            m = re.match(r'#undef (\w+)', l)
            if m:
                mac.pop(m.group(1), None)
        out['obligations'] += 1 + len(mac)
        out['samples'].append('%s.hpp leaves %d macros' % (h, len(mac)))
        for n, line in mac.items():
            if not MACRO.match(n):
                out['viol'].append(viol('a header leaves the macro %s behind' % n, '%s:%d:1: error: macro %s' % (src, line, n), '-std=c++%d' % s))
    return out


def isconst(ir, l):
    """is the variable defined by line l of the IR const (but initialised at run time)?"""
    def at(n):
        m = re.search(r'(?m)^!%s = (.*)$' % n, ir)
        return m.group(1) if m else ''
    for n in re.findall(r'!dbg !(\d+)', l):
        v = re.search(r'var: !(\d+)', at(n))
        t = re.search(r'\btype: !(\d+)', at(v.group(1))) if v else None
        if t and 'DW_TAG_const_type' in at(t.group(1)):
            return True
    return False


def state(j, tmp):
    """No variable of the library outlives the operations on the objects of the user: separate objects have nothing in common."""
    out = {'obligations': 0, 'samples': [], 'viol': [], 'errors': []}
    todo = [(h, s, k, u) for h in headers() for s in ((max(MIN.get(h, 11), 11), 20) if MIN.get(h, 11) < 20 else (20,)) for k, u in enumerate(USE.get(h, []))]

    def one(p):
        h, s, k, u = p
        f = os.path.join(tmp, 'st_%s_%d_%d.cpp' % (h, s, k))
        open(f, 'w').write(inc(h) + X + u + '\n')
        return p, subprocess.run(['clang++', '-std=c++%d' % s, '-w', '-S', '-emit-llvm', '-g', '-o', '-', '-I', os.path.join(driver.REPO, 'include'), f], capture_output=True, text=True)
    with ThreadPoolExecutor(8) as ex:
        for (h, s, k, u), r in ex.map(one, todo):
            if r.returncode:
                continue          # reported by the check of C25
            n = 0
            for l in r.stdout.splitlines():
                m = re.match(r'@("?[\w.$]+"?) = (.*?)\b(global|constant)\b', l)
                if m and '5itlib' in m.group(1):
                    n += 1
                    if m.group(3) == 'global' and not m.group(1).strip('"').startswith('_ZGV') and not isconst(r.stdout, l):
                        what = 'the variable %s is shared by separate objects' % demangle(m.group(1))
                        if not any(v.get('msg') == what or what in str(v) for v in out['viol']):
                            out['viol'].append(viol(what, 'include/itlib/%s.hpp:1:1: error: %s' % (h, what), '-std=c++%d' % s))
            out['obligations'] += 1 + n
            out['samples'].append('%s.hpp -std=c++%d use %d: %d variables, all constant' % (h, s, k, n))
    return out
