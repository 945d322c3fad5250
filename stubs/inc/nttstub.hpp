// Minimal stand-in for the parts of crab/clam/boost/std that the verifier's abstract domain uses.
// Numbers are 64-bit (the check bounds them), the base interval domain is an uninterpreted state (v_mk) with
// explicit bindings for set / forget.
#pragma once
typedef long v_i64;
typedef unsigned long size_t;
extern "C" v_i64 v_mk(v_i64 op, v_i64 a, v_i64 b, v_i64 c, v_i64 d);
// interval of variable v in the abstract state t: 0 kind of the lower end, 1 lower end, 2 kind of the upper end, 3 upper end
extern "C" v_i64 v_itv(v_i64 t, v_i64 v, v_i64 which);
extern "C" void v_error(void) __attribute__((noreturn));
inline void *operator new(size_t, void *p) { return p; }

namespace std {
using ::size_t;
using nullptr_t = decltype(nullptr);
template <class T> struct remove_reference { typedef T type; };
template <class T> struct remove_reference<T &> { typedef T type; };
template <class T> struct remove_reference<T &&> { typedef T type; };
template <class T> typename remove_reference<T>::type &&move(T &&t) { return static_cast<typename remove_reference<T>::type &&>(t); }
template <class T> T &&forward(typename remove_reference<T>::type &t) { return static_cast<T &&>(t); }
template <class T> const T &min(const T &a, const T &b) { return b < a ? b : a; }
template <class T> const T &max(const T &a, const T &b) { return a < b ? b : a; }
template <class T> void swap(T &a, T &b) { T c = move(a); a = move(b); b = move(c); }
template <class A, class B> struct pair {
  A first; B second;
  pair() {}
  ~pair() {}
  pair(A a, B b) : first(a), second(b) {}
};
template <class A, class B> pair<A, B> make_pair(A a, B b) { return pair<A, B>(a, b); }

class string {
  v_i64 h; // a hash of the text
  static v_i64 mix(v_i64 h, const char *s) {
    unsigned long x = (unsigned long)h;
    for (; *s; ++s) x = (x * 131ul + (unsigned char)*s) & 0xffffffffffful;
    return (v_i64)x;
  }
public:
  string() : h(0) {}
  string(const char *s) : h(mix(0, s)) {}
  string operator+(const char *s) const { string r; r.h = mix(h, s); return r; }
  string operator+(const string &s) const { string r; r.h = (v_i64)(((unsigned long)h * 1000003ul + (unsigned long)s.h) & 0xffffffffffful); return r; }
  string &operator+=(const char *s) { h = mix(h, s); return *this; }
  bool operator==(const char *s) const { return h == mix(0, s); }
  bool operator==(const string &s) const { return h == s.h; }
  bool operator!=(const char *s) const { return h != mix(0, s); }
  bool operator!=(const string &s) const { return h != s.h; }
  int compare(const char *s) const { return h != mix(0, s); }
  bool empty() const { return h == 0; }
  const char *c_str() const { return ""; }
  v_i64 hash() const { return h; }
};
inline string operator+(const char *a, const string &b) { return string(a) + b; }

template <class T> class vector {
  T m_e[3];
  size_t m_n;
public:
  typedef const T *const_iterator;
  typedef T *iterator;
  vector() : m_n(0) {}
  size_t size() const { return m_n; }
  bool empty() const { return m_n == 0; }
  const T &operator[](size_t i) const { return m_e[i]; }
  T &operator[](size_t i) { return m_e[i]; }
  const T &at(size_t i) const { return m_e[i]; }
  const T &front() const { return m_e[0]; }
  const T &back() const { return m_e[m_n - 1]; }
  const T *begin() const { return m_e; }
  const T *end() const { return m_e + m_n; }
  void push_back(const T &t) { m_e[m_n] = t; m_n++; }
};
} // namespace std

namespace boost {
struct none_t {};
static const none_t none = none_t();
template <class T> class optional {
  v_i64 m_has; // all fields are words: no padding
  T m_v;
public:
  ~optional() {}
  optional() : m_has(0) {}
  optional(none_t) : m_has(0) {}
  optional(const T &v) : m_has(1), m_v(v) {}
  explicit operator bool() const { return m_has != 0; }
  bool operator!() const { return m_has == 0; }
  bool is_initialized() const { return m_has != 0; }
  bool has_value() const { return m_has != 0; }
  const T &operator*() const { return m_v; }
  T &operator*() { return m_v; }
  const T &get() const { return m_v; }
  const T &value() const { return m_v; }
  const T &value_or(const T &d) const { return m_has ? m_v : d; }
  const T *operator->() const { return &m_v; }
};
} // namespace boost

namespace ikos {
class z_number {
  v_i64 n;
public:
  z_number() : n(0) {}
  z_number(int x) : n(x) {}
  z_number(unsigned x) : n(x) {}
  z_number(long x) : n(x) {}
  z_number(unsigned long x) : n((v_i64)x) {}
  z_number(long long x) : n((v_i64)x) {}
  v_i64 raw() const { return n; }
  explicit operator long() const { return n; }
  bool fits_int64() const { return true; }
  z_number operator+(const z_number &o) const { return z_number(n + o.n); }
  z_number operator-(const z_number &o) const { return z_number(n - o.n); }
  z_number operator*(const z_number &o) const { return z_number(n * o.n); }
  z_number operator/(const z_number &o) const { return z_number(n / o.n); }
  z_number operator%(const z_number &o) const { return z_number(n % o.n); }
  z_number operator&(const z_number &o) const { return z_number(n & o.n); }
  z_number operator|(const z_number &o) const { return z_number(n | o.n); }
  z_number operator^(const z_number &o) const { return z_number(n ^ o.n); }
  z_number operator<<(const z_number &o) const { return z_number(n * (v_i64)(1ul << o.n)); }
  z_number operator>>(const z_number &o) const { return z_number(n >> o.n); }
  z_number operator-() const { return z_number(-n); }
  z_number operator~() const { return z_number(~n); }
  z_number &operator+=(const z_number &o) { n = n + o.n; return *this; }
  z_number &operator-=(const z_number &o) { n = n - o.n; return *this; }
  z_number &operator*=(const z_number &o) { n = n * o.n; return *this; }
  z_number &operator/=(const z_number &o) { n = n / o.n; return *this; }
  z_number &operator%=(const z_number &o) { n = n % o.n; return *this; }
  z_number &operator++() { n = n + 1; return *this; }
  z_number &operator--() { n = n - 1; return *this; }
  bool operator==(const z_number &o) const { return n == o.n; }
  bool operator!=(const z_number &o) const { return n != o.n; }
  bool operator<(const z_number &o) const { return n < o.n; }
  bool operator<=(const z_number &o) const { return n <= o.n; }
  bool operator>(const z_number &o) const { return n > o.n; }
  bool operator>=(const z_number &o) const { return n >= o.n; }
};

template <class Number> class bound {
  v_i64 m_inf; // 0 finite, -1, +1
  Number m_n;
  bound(int i, int) : m_inf(i), m_n(0) {}
public:
  ~bound() {}
  bound() : m_inf(0), m_n(0) {}
  bound(const Number &n) : m_inf(0), m_n(n) {}
  static bound plus_infinity() { return bound(1, 0); }
  static bound minus_infinity() { return bound(-1, 0); }
  bool is_infinite() const { return m_inf != 0; }
  bool is_finite() const { return m_inf == 0; }
  bool is_plus_infinity() const { return m_inf == 1; }
  bool is_minus_infinity() const { return m_inf == -1; }
  boost::optional<Number> number() const {
    if (m_inf != 0) return boost::optional<Number>();
    return boost::optional<Number>(m_n);
  }
  bool operator==(const bound &o) const { return m_inf == o.m_inf && (m_inf != 0 || m_n == o.m_n); }
  bool operator!=(const bound &o) const { return !(*this == o); }
  bool operator<=(const bound &o) const { return m_inf < o.m_inf || (m_inf == o.m_inf && (m_inf != 0 || m_n <= o.m_n)); }
  bool operator<(const bound &o) const { return !(o <= *this); }
  bool operator>=(const bound &o) const { return o <= *this; }
  bool operator>(const bound &o) const { return !(*this <= o); }
  v_i64 kind() const { return m_inf; }
  v_i64 raw() const { return m_inf != 0 ? 0 : m_n.raw(); }
};

template <class Number> class interval {
public:
  using bound_t = bound<Number>;
private:
  bound_t m_lb, m_ub;
  v_i64 m_bot;
public:
  interval() : m_lb(bound_t::minus_infinity()), m_ub(bound_t::plus_infinity()), m_bot(false) {}
  interval(const bound_t &l, const bound_t &u) : m_lb(l), m_ub(u), m_bot(!(l <= u)) {}
  interval(const Number &l, const Number &u) : m_lb(l), m_ub(u), m_bot(!(l <= u)) {}
  explicit interval(const Number &n) : m_lb(n), m_ub(n), m_bot(false) {}
  static interval top() { return interval(); }
  static interval bottom() { interval r; r.m_bot = 1; return r; }
  bound_t lb() const { return m_lb; }
  bound_t ub() const { return m_ub; }
  bool is_bottom() const { return m_bot != 0; }
  bool is_top() const { return m_bot == 0 && m_lb.is_infinite() && m_ub.is_infinite(); }
  boost::optional<Number> singleton() const {
    if (m_bot == 0 && m_lb == m_ub && m_lb.is_finite()) return m_lb.number();
    return boost::optional<Number>();
  }
};
} // namespace ikos

namespace crab {
template <class T> class vvar {
  v_i64 m_i;
public:
  vvar() : m_i(0) {}
  explicit vvar(v_i64 i) : m_i(i) {}
  v_i64 index() const { return m_i; }
  v_i64 hash() const { return m_i; }
  bool operator==(const vvar &o) const { return m_i == o.m_i; }
  bool operator!=(const vvar &o) const { return m_i != o.m_i; }
  bool operator<(const vvar &o) const { return m_i < o.m_i; }
};
template <class T> class vvarc {
  v_i64 m_var;
  vvar<T> m_v;
  T m_n;
public:
  vvarc() : m_var(0), m_n(0) {}
  vvarc(const vvar<T> &v) : m_var(1), m_v(v), m_n(0) {}
  vvarc(const T &n) : m_var(0), m_n(n) {}
  bool is_variable() const { return m_var != 0; }
  bool is_constant() const { return m_var == 0; }
  vvar<T> get_variable() const { return m_v; }
  T get_constant() const { return m_n; }
};
template <int K> struct vterm { // expressions, constraints, systems: opaque
  v_i64 t;
  vterm() : t(0) {}
  explicit vterm(v_i64 x) : t(x) {}
};
template <class N> struct thresholds { v_i64 t; thresholds() : t(0) {} explicit thresholds(v_i64 x) : t(x) {} };
struct crab_os { v_i64 t; crab_os() : t(0) {} template <class T> crab_os &operator<<(const T &) { return *this; } };
inline crab_os outs() { return crab_os(); }
inline crab_os errs() { return crab_os(); }
struct CrabStats {
  static void count(const std::string &) {}
  static void resume(const std::string &) {}
  static void stop(const std::string &) {}
};
struct ScopedCrabStats { ScopedCrabStats(const std::string &, bool = false) {} ~ScopedCrabStats() {} };
template <class... A> inline void v_ignore(const A &...) {}

namespace domains {
enum arith_operation_t { OP_ADDITION, OP_SUBTRACTION, OP_MULTIPLICATION, OP_SDIV, OP_UDIV, OP_SREM, OP_UREM };
enum bitwise_operation_t { OP_AND = 16, OP_OR, OP_XOR, OP_SHL, OP_LSHR, OP_ASHR };
enum int_conv_operation_t { OP_TRUNC = 32, OP_SEXT, OP_ZEXT };
template <class D> struct abstract_domain_traits;
template <class D> class abstract_domain_api {
public:
  using number_t = ikos::z_number;
  using interval_t = ikos::interval<number_t>;
  using variable_t = vvar<number_t>;
  using variable_or_constant_t = vvarc<number_t>;
  using variable_vector_t = std::vector<variable_t>;
  using variable_or_constant_vector_t = std::vector<variable_or_constant_t>;
  using linear_expression_t = vterm<0>;
  using linear_constraint_t = vterm<1>;
  using linear_constraint_system_t = vterm<2>;
  using disjunctive_linear_constraint_system_t = vterm<3>;
  using reference_constraint_t = vterm<4>;
};
} // namespace domains
} // namespace crab

namespace ikos {
enum { V_TOP = 1, V_BOT, V_BIND, V_LEQ, V_JOIN, V_MEET, V_WIDEN, V_WIDENT, V_NARROW, V_ADD, V_ASSIGN, V_ARITH, V_ARITHK, V_CONV, V_BIT, V_BITK,
  V_SELECT, V_ENTAILS, V_WEAK, V_PROJECT, V_RENAME, V_EXPAND, V_WRITE, V_SYS, V_DSYS, V_ISBOT, V_ISTOP, V_VEC, V_PAIR };

// the base domain: state = uninterpreted term with explicit bindings
template <class N, class V> class interval_domain {
public:
  using interval_t = interval<N>;
  using variable_t = crab::vvar<N>;
  using E = crab::vterm<0>;
  using C = crab::vterm<1>;
  using S = crab::vterm<2>;
  using DS = crab::vterm<3>;
  using vec = std::vector<variable_t>;
private:
  v_i64 m_id;
  v_i64 m_bot; // 0 no, 1 yes, 2 depends on the term
  v_i64 m_k;
  v_i64 m_var[3];
  interval_t m_itv[3];
  explicit interval_domain(v_i64 id, v_i64 bot = 2) : m_id(id), m_bot(bot), m_k(0) { m_var[0] = m_var[1] = m_var[2] = 0; }
  static interval_domain of(v_i64 id) { return interval_domain(id); }
  // a transfer function: the unreachable state stays unreachable
  void become(v_i64 id) {
    if (is_bottom()) set_to_bottom();
    else { m_id = id; m_bot = 2; m_k = 0; }
  }
  void bind(v_i64 v, const interval_t &i) {
    if (is_bottom()) return;
    m_var[m_k] = v;
    m_itv[m_k] = i;
    m_k++;
  }
  static v_i64 vecterm(const vec &v) {
    v_i64 t = (v_i64)v.size();
    for (size_t i = 0; i < v.size(); i++) t = v_mk(V_VEC, t, v[i].index(), 0, 0);
    return t;
  }
public:
  interval_domain() : m_id(V_TOP), m_bot(0), m_k(0) { m_var[0] = m_var[1] = m_var[2] = 0; }
  v_i64 term() const {
    if (is_bottom()) return V_BOT;
    v_i64 t = m_id;
    for (int i = 0; i < m_k; i++)
      t = v_mk(V_BIND, t, m_var[i], v_mk(V_PAIR, m_itv[i].lb().kind(), m_itv[i].lb().raw(), m_itv[i].ub().kind(), m_itv[i].ub().raw()), m_itv[i].is_bottom());
    return t;
  }
  static interval_domain top() { return interval_domain(V_TOP, 0); }
  static interval_domain bottom() { return interval_domain(V_BOT, 1); }
  interval_domain make_top() const { return interval_domain(V_TOP, 0); }
  interval_domain make_bottom() const { return interval_domain(V_BOT, 1); }
  void set_to_top() { m_id = V_TOP; m_bot = 0; m_k = 0; }
  void set_to_bottom() { m_id = V_BOT; m_bot = 1; m_k = 0; }
  bool is_bottom() const { return m_bot == 2 ? (v_mk(V_ISBOT, m_id, 0, 0, 0)) != 0 : m_bot == 1; }
  bool is_top() const { return is_bottom() ? false : m_bot == 0 && m_id == V_TOP ? m_k == 0 : (v_mk(V_ISTOP, term(), 0, 0, 0)) != 0; }
  bool operator<=(const interval_domain &o) const { return is_bottom() || (!o.is_bottom() && v_mk(V_LEQ, term(), o.term(), 0, 0) != 0); }
  interval_domain operator|(const interval_domain &o) const {
    if (is_bottom()) return o;
    if (o.is_bottom()) return *this;
    return of(v_mk(V_JOIN, term(), o.term(), 0, 0));
  }
  interval_domain operator&(const interval_domain &o) const {
    if (is_bottom() || o.is_bottom()) return make_bottom();
    return of(v_mk(V_MEET, term(), o.term(), 0, 0));
  }
  interval_domain operator||(const interval_domain &o) const {
    if (is_bottom()) return o;
    if (o.is_bottom()) return *this;
    return of(v_mk(V_WIDEN, term(), o.term(), 0, 0));
  }
  interval_domain operator&&(const interval_domain &o) const {
    if (is_bottom() || o.is_bottom()) return make_bottom();
    return of(v_mk(V_NARROW, term(), o.term(), 0, 0));
  }
  interval_domain widening_thresholds(const interval_domain &o, const crab::thresholds<N> &t) const {
    if (is_bottom()) return o;
    if (o.is_bottom()) return *this;
    return of(v_mk(V_WIDENT, term(), o.term(), t.t, 0));
  }
  void operator|=(const interval_domain &o) { *this = *this | o; }
  void operator&=(const interval_domain &o) { *this = *this & o; }
  void operator-=(const variable_t &v) { bind(v.index(), interval_t::top()); }
  void forget(const vec &v) { for (size_t i = 0; i < v.size(); i++) bind(v[i].index(), interval_t::top()); }
  void set(const variable_t &v, const interval_t &i) { bind(v.index(), i); }
  interval_t at(const variable_t &v) const {
    if (is_bottom()) return interval_t::bottom();
    for (int i = m_k - 1; i >= 0; i--)
      if (m_var[i] == v.index()) return m_itv[i];
    if (m_id == V_TOP) return interval_t::top();
    using bnd = typename interval_t::bound_t;
    bnd l = v_itv(m_id, v.index(), 0) != 0 ? bnd::minus_infinity() : bnd(N(v_itv(m_id, v.index(), 1)));
    bnd u = v_itv(m_id, v.index(), 2) != 0 ? bnd::plus_infinity() : bnd(N(v_itv(m_id, v.index(), 3)));
    return interval_t(l, u);
  }
  interval_t operator[](const variable_t &v) { return at(v); }
  interval_t operator[](const variable_t &v) const { return at(v); }
  void operator+=(const S &s) { become(v_mk(V_ADD, term(), s.t, 0, 0)); }
  void assign(const variable_t &x, const E &e) { become(v_mk(V_ASSIGN, term(), x.index(), e.t, 0)); }
  void weak_assign(const variable_t &x, const E &e) { become(v_mk(V_WEAK, term(), x.index(), e.t, 0)); }
  void apply(crab::domains::arith_operation_t op, const variable_t &x, const variable_t &y, const variable_t &z) {
    become(v_mk(V_ARITH, v_mk(V_PAIR, term(), op, 0, 0), x.index(), y.index(), z.index()));
  }
  void apply(crab::domains::arith_operation_t op, const variable_t &x, const variable_t &y, N k) {
    become(v_mk(V_ARITHK, v_mk(V_PAIR, term(), op, 0, 0), x.index(), y.index(), k.raw()));
  }
  void apply(crab::domains::int_conv_operation_t op, const variable_t &x, const variable_t &y) {
    become(v_mk(V_CONV, v_mk(V_PAIR, term(), op, 0, 0), x.index(), y.index(), 0));
  }
  void apply(crab::domains::bitwise_operation_t op, const variable_t &x, const variable_t &y, const variable_t &z) {
    become(v_mk(V_BIT, v_mk(V_PAIR, term(), op, 0, 0), x.index(), y.index(), z.index()));
  }
  void apply(crab::domains::bitwise_operation_t op, const variable_t &x, const variable_t &y, N k) {
    become(v_mk(V_BITK, v_mk(V_PAIR, term(), op, 0, 0), x.index(), y.index(), k.raw()));
  }
  void select(const variable_t &x, const C &c, const E &e1, const E &e2) {
    become(v_mk(V_SELECT, v_mk(V_PAIR, term(), x.index(), 0, 0), c.t, e1.t, e2.t));
  }
  bool entails(const C &c) const { return is_bottom() || v_mk(V_ENTAILS, term(), c.t, 0, 0) != 0; }
  void project(const vec &v) { become(v_mk(V_PROJECT, term(), vecterm(v), 0, 0)); }
  void rename(const vec &f, const vec &t) { become(v_mk(V_RENAME, term(), vecterm(f), vecterm(t), 0)); }
  void expand(const variable_t &x, const variable_t &y) { become(v_mk(V_EXPAND, term(), x.index(), y.index(), 0)); }
  void write(crab::crab_os &o) const { o.t = v_mk(V_WRITE, term(), o.t, 0, 0); }
  S to_linear_constraint_system() const { return S(v_mk(V_SYS, term(), 0, 0, 0)); }
  DS to_disjunctive_linear_constraint_system() const { return DS(v_mk(V_DSYS, term(), 0, 0, 0)); }
  void normalize() {}
  void minimize() {}
  std::string domain_name() const { return "Intervals"; }
};
} // namespace ikos

#define CRAB_ERROR(...) do { crab::v_ignore(__VA_ARGS__); v_error(); } while (0)
#define CRAB_WARN(...) crab::v_ignore(__VA_ARGS__)
#define CRAB_LOG(TAG, CODE) do { } while (0)
#define BOOL_OPERATIONS_NOT_IMPLEMENTED(D)
#define ARRAY_OPERATIONS_NOT_IMPLEMENTED(D)
#define REGION_AND_REFERENCE_OPERATIONS_NOT_IMPLEMENTED(D)

namespace clam {
using number_t = ikos::z_number;
struct varname_t {};
}
