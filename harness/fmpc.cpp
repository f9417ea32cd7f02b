// FMPC solver driver for one template instantiation: compile with -DNX=<n> -DNUT=<m or -1> -DNGT=<k or -1>.
#include "common.h"

#include <fstream>

#include <nmpc_fmpc/FmpcSolver.h>

namespace
{
using namespace h;
using Problem = nmpc_fmpc::FmpcProblem<NX, NUT, NGT>;
using Solver = nmpc_fmpc::FmpcSolver<NX, NUT, NGT>;
using X = Solver::StateDimVector;
using U = Solver::InputDimVector;
using G = Solver::IneqDimVector;

struct PolyProblem : public Problem
{
  std::shared_ptr<Prob> p;
  explicit PolyProblem(std::shared_ptr<Prob> p_) : Problem(p_->dt), p(p_) {}
#if NUT < 0
  using Problem::inputDim;
  int inputDim(double t) const override
  {
    return p->mode(t).nu;
  }
#endif
#if NGT < 0
  using Problem::ineqDim;
  int ineqDim(double t) const override
  {
    return p->mode(t).ng;
  }
#endif
  X stateEq(double t, const X & x, const U & u) const override
  {
    tick(0, 17);
    const auto & m = p->mode(t);
    auto z = p->z(t, x, u);
    X r;
    for(int i = 0; i < NX; i++) r[i] = peval(m.f[i], z.data());
    return r;
  }
  double runningCost(double t, const X & x, const U & u) const override
  {
    tick(0, 5);
    auto z = p->z(t, x, u);
    return peval(p->mode(t).l, z.data());
  }
  double terminalCost(double t, const X & x) const override
  {
    tick(0, 5);
    auto z = p->z(t, x, Eigen::VectorXd());
    return peval(p->phi, z.data());
  }
  G ineqConst(double t, const X & x, const U & u) const override
  {
    tick(0, 17);
    const auto & m = p->mode(t);
    auto z = p->z(t, x, u);
    G r;
    r.resize(m.ng);
    for(int i = 0; i < m.ng; i++) r[i] = peval(m.g[i], z.data());
    return r;
  }
  void calcStateEqDeriv(double t,
                        const X & x,
                        const U & u,
                        Eigen::Ref<Solver::StateStateDimMatrix> fx,
                        Eigen::Ref<Solver::StateInputDimMatrix> fu) const override
  {
    tick(1, 1000);
    const auto & m = p->mode(t);
    auto z = p->z(t, x, u);
    for(int i = 0; i < NX; i++)
    {
      for(int j = 0; j < NX; j++) fx(i, j) = peval(m.f[i], z.data(), 1 + j);
      for(int j = 0; j < m.nu; j++) fu(i, j) = peval(m.f[i], z.data(), 1 + NX + j);
    }
  }
  void calcIneqConstDeriv(double t,
                          const X & x,
                          const U & u,
                          Eigen::Ref<Solver::IneqStateDimMatrix> gx,
                          Eigen::Ref<Solver::IneqInputDimMatrix> gu) const override
  {
    tick(1, 1000);
    const auto & m = p->mode(t);
    auto z = p->z(t, x, u);
    for(int i = 0; i < m.ng; i++)
    {
      for(int j = 0; j < NX; j++) gx(i, j) = peval(m.g[i], z.data(), 1 + j);
      for(int j = 0; j < m.nu; j++) gu(i, j) = peval(m.g[i], z.data(), 1 + NX + j);
    }
  }
  void calcRunningCostDeriv(double t, const X & x, const U & u, Eigen::Ref<X> lx, Eigen::Ref<U> lu) const override
  {
    tick(1, 1000);
    const auto & m = p->mode(t);
    auto z = p->z(t, x, u);
    for(int i = 0; i < NX; i++) lx[i] = peval(m.l, z.data(), 1 + i);
    for(int i = 0; i < m.nu; i++) lu[i] = peval(m.l, z.data(), 1 + NX + i);
  }
  void calcRunningCostDeriv(double t,
                            const X & x,
                            const U & u,
                            Eigen::Ref<X> lx,
                            Eigen::Ref<U> lu,
                            Eigen::Ref<Solver::StateStateDimMatrix> lxx,
                            Eigen::Ref<Solver::InputInputDimMatrix> luu,
                            Eigen::Ref<Solver::StateInputDimMatrix> lxu) const override
  {
    tick(1, 1000);
    calcRunningCostDeriv(t, x, u, lx, lu);
    const auto & m = p->mode(t);
    auto z = p->z(t, x, u);
    for(int i = 0; i < NX; i++)
    {
      for(int j = 0; j < NX; j++) lxx(i, j) = peval(m.l, z.data(), 1 + i, 1 + j);
      for(int j = 0; j < m.nu; j++) lxu(i, j) = peval(m.l, z.data(), 1 + i, 1 + NX + j);
    }
    for(int i = 0; i < m.nu; i++)
      for(int j = 0; j < m.nu; j++) luu(i, j) = peval(m.l, z.data(), 1 + NX + i, 1 + NX + j);
  }
  void calcTerminalCostDeriv(double t, const X & x, Eigen::Ref<X> vx) const override
  {
    tick(1, 1000);
    auto z = p->z(t, x, Eigen::VectorXd());
    for(int i = 0; i < NX; i++) vx[i] = peval(p->phi, z.data(), 1 + i);
  }
  void calcTerminalCostDeriv(double t,
                             const X & x,
                             Eigen::Ref<X> vx,
                             Eigen::Ref<Solver::StateStateDimMatrix> vxx) const override
  {
    tick(1, 1000);
    calcTerminalCostDeriv(t, x, vx);
    auto z = p->z(t, x, Eigen::VectorXd());
    for(int i = 0; i < NX; i++)
      for(int j = 0; j < NX; j++) vxx(i, j) = peval(p->phi, z.data(), 1 + i, 1 + j);
  }
};

struct Cfg
{
  int N, maxIter, print, nan, init, upd, brk, ls, lagr;
  double thre;
  void read(In & in)
  {
    N = (int)in.num();
    maxIter = (int)in.num();
    print = (int)in.num();
    nan = (int)in.num(); // -1: keep the defaults of everything below
    init = (int)in.num();
    upd = (int)in.num();
    brk = (int)in.num();
    ls = (int)in.num();
    lagr = (int)in.num();
    thre = in.dbl();
  }
  void apply(Solver & s) const
  {
    auto & c = s.config();
    c.horizon_steps = N;
    if(maxIter >= 0) c.max_iter = maxIter;
    c.print_level = print;
    if(nan < 0) return;
    c.check_nan = nan != 0;
    c.init_complementary_variable = init != 0;
    c.update_barrier_eps = upd != 0;
    c.break_if_llt_fails = brk != 0;
    c.enable_line_search = ls != 0;
    c.merit_const_scale_from_lagrange_multipliers = lagr != 0;
    c.kkt_error_thre = thre;
  }
};

template<class V>
V fit(const Eigen::VectorXd & v)
{
  if constexpr(V::RowsAtCompileTime == Eigen::Dynamic)
    return v;
  else
  {
    V w = V::Zero();
    for(int i = 0; i < w.size() && i < v.size(); i++) w[i] = v[i];
    return w;
  }
}
struct Args
{
  double t0;
  X x0;
  Solver::Variable v{0};
  void read(In & in)
  {
    t0 = in.dbl();
    x0 = fit<X>(in.vec());
    int hs = (int)in.num(); // -1: as constructed by default
    v = hs < 0 ? Solver::Variable() : Solver::Variable(hs);
    v.x_list.clear();
    v.u_list.clear();
    v.lambda_list.clear();
    v.s_list.clear();
    v.nu_list.clear();
    for(auto & e : in.vecs()) v.x_list.push_back(fit<X>(e));
    for(auto & e : in.vecs()) v.u_list.push_back(fit<U>(e));
    for(auto & e : in.vecs()) v.lambda_list.push_back(fit<X>(e));
    for(auto & e : in.vecs()) v.s_list.push_back(fit<G>(e));
    for(auto & e : in.vecs()) v.nu_list.push_back(fit<G>(e));
  }
};

std::shared_ptr<Solver> make(const std::shared_ptr<PolyProblem> & prob)
{
  return std::make_shared<Solver>(prob);
}

// flags: 1 = durations, 2 = captured output, 4 = trace dump, 8 = leave the variables out, 16 = configuration, 1 << 16 = coefficients
int observe(Solver & s, const Args & a, int flags, Out & o)
{
  int ret = -1;
  std::string exc;
  Capture cap((flags & 2) != 0);
  if(flags & 1) vh_clock(true);
  try
  {
    ret = (int)s.solve(a.t0, a.x0, a.v);
  }
  catch(const std::exception & e)
  {
    exc = excName(e);
  }
  vh_clock(false);
  long bytes = cap.stop();
  o.open('{').key("ret").num(ret).key("exc").str(exc);
  auto flag = [](bool b) { return b ? "true" : "false"; };
  if(flags & 16)
  {
    const auto & c = s.config();
    o.key("cf").open('{').key("nan").raw(flag(c.check_nan)).key("init").raw(flag(c.init_complementary_variable));
    o.key("upd").raw(flag(c.update_barrier_eps)).key("brk").raw(flag(c.break_if_llt_fails));
    o.key("ls").raw(flag(c.enable_line_search)).key("lagr").raw(flag(c.merit_const_scale_from_lagrange_multipliers));
    o.key("thre").dbl(c.kkt_error_thre).close('}');
  }
  if(flags & 2) o.key("out").num(bytes);
  // what is reported about a finished solve does not depend on settings changed afterwards
  const auto saved = s.config();
  s.config().horizon_steps = saved.horizon_steps == 1 ? 2 : 1;
  s.config().max_iter = saved.max_iter > 1 ? 1 : 3;
  s.config().kkt_error_thre = 1e6;
  const auto & v = s.variable();
  if(!(flags & 8))
  {
    o.key("v").open('{').key("x").vecs(v.x_list).key("u").vecs(v.u_list).key("lam").vecs(v.lambda_list);
    o.key("s").vecs(v.s_list).key("nu").vecs(v.nu_list).close('}');
  }
  if(flags & 1 << 16)
  {
    const auto & cl = s.coeffList();
    o.key("co").open('[');
    for(size_t i = 0; i < cl.size(); i++)
    {
      const auto & c = cl[i];
      o.open('{').key("Lx").vec(c.Lx).key("Lxx").mat(c.Lxx).key("lxb").vec(c.Lx_bar).key("s").vec(c.s).key("P").mat(c.P);
      if(i + 1 < cl.size())
      {
        o.key("Fx").mat(c.A).key("Fu").mat(c.B).key("Gx").mat(c.C).key("Gu").mat(c.D).key("Lu").vec(c.Lu).key("Luu").mat(c.Luu);
        o.key("Lxu").mat(c.Lxu).key("xb").vec(c.x_bar).key("gb").vec(c.g_bar).key("lub").vec(c.Lu_bar);
        o.key("k").vec(c.k).key("K").mat(c.K);
      }
      o.close('}');
    }
    o.close(']');
  }
  const auto & tl = s.traceDataList();
  o.key("rows").open('[');
  for(const auto & r : tl) o.open('{').key("it").num(r.iter).key("kkt").dbl(r.kkt_error).close('}');
  o.close(']');
  if(flags & 1)
  {
    o.key("tk").open('[').num(vh_ticks(0)).num(vh_ticks(1)).num(vh_ticks(2)).close(']');
    o.key("rd").open('[');
    for(const auto & r : tl)
      o.open('[').dbl(r.duration_coeff).dbl(r.duration_backward).dbl(r.duration_forward).dbl(r.duration_update).close(']');
    o.close(']');
    const auto & d = s.computationDuration();
    o.key("dur").open('{').key("solve").dbl(d.solve).key("setup").dbl(d.setup).key("opt").dbl(d.opt);
    o.key("coeff").dbl(d.coeff).key("backward").dbl(d.backward).key("forward").dbl(d.forward).key("update").dbl(d.update);
    o.key("gain_pre").dbl(d.gain_pre).key("gain_solve").dbl(d.gain_solve).key("gain_post").dbl(d.gain_post);
    o.key("fraction").dbl(d.fraction).close('}');
  }
  if(flags & 4) dumpRows(o, [&](const std::string & name) { s.dumpTraceDataList(name); });
  s.config() = saved;
  o.close('}');
  return ret;
}

// something else that the solver did before: another horizon, start time, setting, perhaps a rejected call
void disturb(Solver & s, const std::shared_ptr<PolyProblem> & prob, const Cfg & cf, const Args & a, int k)
{
  Cfg c = cf;
  c.N = k % 4 == 3 ? std::max(0, cf.N - 1) : cf.N + 1 + k % 3;
  c.maxIter = 1 + k % 4;
  if(c.nan >= 0)
  {
    c.init = 0;
    c.upd = 1;
    c.ls = k % 2;
  }
  c.apply(s);
  double dt = prob->p->dt;
  Args b = a;
  b.t0 = a.t0 + (k % 3) * dt;
  b.x0 = -0.5 * a.x0 + X::Constant(0.1 * (1 + k % 5));
  b.v = typename Solver::Variable(c.N);
  for(int i = 0; i <= c.N; i++)
  {
    b.v.x_list[i] = X::Constant(0.05 * ((i + k) % 5));
    b.v.lambda_list[i] = X::Constant(0.1 * ((i + k) % 3));
    if(i == c.N) break;
    const auto & m = prob->p->mode(b.t0 + i * dt);
    b.v.u_list[i].resize(m.nu);
    b.v.u_list[i].setConstant(0.1 * ((i + k) % 7) - 0.3);
    b.v.s_list[i].resize(m.ng);
    b.v.s_list[i].setConstant(0.3 + 0.1 * (k % 4));
    b.v.nu_list[i].resize(m.ng);
    b.v.nu_list[i].setConstant(0.2 + 0.3 * (k % 3));
  }
  if(k % 5 == 4) b.v.u_list.emplace_back();
  if(k % 5 == 2) b.x0[0] = std::nan("");
  try
  {
    s.solve(b.t0, b.x0, b.v);
  }
  catch(const std::exception &)
  {
  }
}

// fmpc <problem> P <cfg> <args> <K> <flags>          runs of solvers with budgets 0..K: fresh ones, or (flag 32) one and
//                                                    the same that solves something else before each run
// fmpc <problem> S <session>, T <threads>
void handle(In & in, Out & o)
{
  auto prob = std::make_shared<PolyProblem>(readProb(in));
  std::string op = in.word();
  o.open('[');
  if(op == "P")
  {
    Cfg cf;
    cf.read(in);
    Args a;
    a.read(in);
    int K = (int)in.num();
    int flags = (int)in.num();
    int stopped = 0;
    std::shared_ptr<Solver> s;
    for(int k = 0; k <= K && stopped < 2; k++)
    {
      if(flags & 1 << 16) vh_poison(1 + k % 2); // what has not been computed shows
      if(!s || !(flags & 32)) s = make(prob);
      if(flags & 32) disturb(*s, prob, cf, a, k + (flags >> 6 & 1023));
      cf.maxIter = k;
      cf.apply(*s);
      int ret = observe(*s, a, flags, o);
      vh_poison(-1);
      if(k > 0 && ret != 5) stopped++;
    }
  }
  else if(op == "T")
  {
    threads<Solver, Cfg, Args>(
        in, o, [&]() { return make(prob); },
        [](Solver & s, const Args & a, int flags, Out & r) { observe(s, a, flags, r); });
  }
  else
  {
    session<Solver, Cfg, Args>(
        in, o, [&]() { return make(prob); },
        [](Solver & s, const Args & a, int flags, Out & r) { observe(s, a, flags, r); });
  }
  o.close(']');
}

#define STR2(x) #x
#define STR(x) STR2(x)
#if NUT < 0
#define TU "D"
#else
#define TU STR(NUT)
#endif
#if NGT < 0
#define TG "D"
#else
#define TG STR(NGT)
#endif
Reg reg("fmpc" STR(NX) "x" TU "x" TG, handle);
} // namespace
