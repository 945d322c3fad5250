// C entry points for the verifier's abstract domain. Only its public interface is used.
#include "ntt_intervals.cpp"
using D = ntt_verifier::ntt_interval_domain<clam::number_t, clam::varname_t>;
using B = ikos::interval_domain<clam::number_t, clam::varname_t>;
using I = D::interval_t;
using N = clam::number_t;
using Var = D::variable_t;
using VC = D::variable_or_constant_t;
using E = D::linear_expression_t;
using C = D::linear_constraint_t;
using S = D::linear_constraint_system_t;
using namespace crab::domains;

struct out { v_i64 bot, lk, l, uk, u; };
static void put(out *o, const I &i) {
  o->bot = i.is_bottom();
  o->lk = i.lb().kind(); o->l = i.lb().raw();
  o->uk = i.ub().kind(); o->u = i.ub().raw();
}
template <class T> static T st(v_i64 t, v_i64 x) { T d; d.assign(Var(x), E(t)); return d; }

// one operation on a domain and on the base domain; the same observation of both
template <class T> static v_i64 observe(T &d, v_i64 v) {
  I i = d.at(Var(v));
  v_i64 r = v_mk(100, i.lb().raw(), i.ub().raw(), i.lb().kind(), i.ub().kind());
  r = v_mk(101, r, i.is_bottom(), d.is_bottom(), d.is_top());
  r = v_mk(102, r, d.to_linear_constraint_system().t, d.to_disjunctive_linear_constraint_system().t, 0);
  crab::crab_os o;
  d.write(o);
  return v_mk(103, r, o.t, 0, 0);
}
template <class T> static v_i64 run(v_i64 op, v_i64 ta, v_i64 tb, v_i64 p, v_i64 q, v_i64 r, v_i64 k, v_i64 v) {
  T a = st<T>(ta, 1), b = st<T>(tb, 2);
  v_i64 x = 0;
  std::vector<Var> v1, v2;
  v1.push_back(Var(p)); v1.push_back(Var(q));
  v2.push_back(Var(r)); v2.push_back(Var(k));
  switch (op) {
  case 0: { T c = a | b; x = observe(c, v); break; }
  case 1: { T c = a & b; x = observe(c, v); break; }
  case 2: { T c = a || b; x = observe(c, v); break; }
  case 3: { T c = a && b; x = observe(c, v); break; }
  case 4: { T c = a.widening_thresholds(b, crab::thresholds<N>(k)); x = observe(c, v); break; }
  case 5: a |= b; break;
  case 6: a &= b; break;
  case 7: x = a <= b; break;
  case 8: { T c = a.make_top(); x = observe(c, v); break; }
  case 9: { T c = a.make_bottom(); x = observe(c, v); break; }
  case 10: a.set_to_top(); break;
  case 11: a.set_to_bottom(); break;
  case 12: a -= Var(p); break;
  case 13: a += S(k); break;
  case 14: a.assign(Var(p), E(k)); break;
  case 15: a.weak_assign(Var(p), E(k)); break;
  case 16: a.apply((arith_operation_t)(k & 7), Var(p), Var(q), Var(r)); break;
  case 17: a.apply((arith_operation_t)(r & 7), Var(p), Var(q), N(k)); break;
  case 18: a.apply((int_conv_operation_t)(k & 63), Var(p), Var(q)); break;
  case 19: a.apply((bitwise_operation_t)(k & 31), Var(p), Var(q), Var(r)); break;
  case 20: a.apply((bitwise_operation_t)(r & 31), Var(p), Var(q), N(k)); break;
  case 21: a.select(Var(p), C(q), E(r), E(k)); break;
  case 22: x = a.entails(C(k)); break;
  case 23: a.forget(v1); break;
  case 24: a.project(v1); break;
  case 25: a.rename(v1, v2); break;
  case 26: a.expand(Var(p), Var(q)); break;
  case 27: { I i = a[Var(p)]; x = v_mk(104, i.lb().raw(), i.ub().raw(), i.lb().kind(), i.ub().kind()); break; }
  case 28: { T c(a); x = observe(c, v); break; }
  case 29: { T c; c = b; x = observe(c, v); break; }
  case 30: { T c(std::move(a)); return observe(c, v); }
  case 31: { T c; x = observe(c, v); break; }
  case 32: a.normalize(); a.minimize(); break;
  }
  return v_mk(105, x, observe(a, v), observe(b, v), 0);
}
extern "C" v_i64 d_op(v_i64 op, v_i64 ta, v_i64 tb, v_i64 p, v_i64 q, v_i64 r, v_i64 k, v_i64 v) { return run<D>(op, ta, tb, p, q, r, k, v); }
extern "C" v_i64 b_op(v_i64 op, v_i64 ta, v_i64 tb, v_i64 p, v_i64 q, v_i64 r, v_i64 k, v_i64 v) { return run<B>(op, ta, tb, p, q, r, k, v); }

// the reduction intrinsic: o[0] the input's interval before, o[1] variable v before, o[2] variable v after
extern "C" v_i64 d_red(v_i64 t, v_i64 in, v_i64 res, v_i64 isvar, v_i64 k, v_i64 v, out *o) {
  D d = st<D>(t, 1);
  std::vector<VC> ins;
  std::vector<Var> outs;
  if (isvar) { VC a{Var(in)}; ins.push_back(a); }
  else { VC a{N(k)}; ins.push_back(a); }
  outs.push_back(Var(res));
  put(o, d.at(Var(in)));
  put(o + 1, d.at(Var(v)));
  v_i64 b0 = d.is_bottom();
  d.intrinsic("red", ins, outs);
  put(o + 2, d.at(Var(v)));
  return b0 * 2 + d.is_bottom();
}
