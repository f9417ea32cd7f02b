// DDP solver driver for one template instantiation: compile with -DNX=<n> -DNUT=<m or -1>.
#include "common.h"

#include <fstream>

#include <nmpc_ddp/DDPSolver.h>

namespace
{
using namespace h;
constexpr int NUE = NUT;
using Problem = nmpc_ddp::DDPProblem<NX, NUE>;
using Solver = nmpc_ddp::DDPSolver<NX, NUE>;
using X = Solver::StateDimVector;
using U = Solver::InputDimVector;

struct PolyProblem : public Problem
{
  std::shared_ptr<Prob> p;
  explicit PolyProblem(std::shared_ptr<Prob> p_) : Problem(p_->dt), p(p_) {}
#if NUT < 0
  using Problem::inputDim;
  int inputDim(double t) const override
  {
    return p->mode(t).nu;
  }
#endif
  X stateEq(double t, const X & x, const U & u) const override
  {
    tick(0, 17);
    const auto & m = p->mode(t);
    auto z = p->z(t, x, u);
    X r;
    for(int i = 0; i < NX; i++) r[i] = peval(m.f[i], z.data());
    return r;
  }
  double runningCost(double t, const X & x, const U & u) const override
  {
    tick(0, 5);
    auto z = p->z(t, x, u);
    const auto & m = p->mode(t);
    return m.tab.empty() ? peval(m.l, z.data()) : m.nearest(u[0])->c;
  }
  double terminalCost(double t, const X & x) const override
  {
    tick(0, 5);
    auto z = p->z(t, x, Eigen::VectorXd());
    return peval(p->phi, z.data());
  }
  void calcStateEqDeriv(double t,
                        const X & x,
                        const U & u,
                        Eigen::Ref<Solver::StateStateDimMatrix> fx,
                        Eigen::Ref<Solver::StateInputDimMatrix> fu) const override
  {
    tick(1, 1000);
    const auto & m = p->mode(t);
    auto z = p->z(t, x, u);
    for(int i = 0; i < NX; i++)
    {
      for(int j = 0; j < NX; j++) fx(i, j) = peval(m.f[i], z.data(), 1 + j);
      for(int j = 0; j < m.nu; j++) fu(i, j) = peval(m.f[i], z.data(), 1 + NX + j);
    }
  }
  void calcStateEqDeriv(double t,
                        const X & x,
                        const U & u,
                        Eigen::Ref<Solver::StateStateDimMatrix> fx,
                        Eigen::Ref<Solver::StateInputDimMatrix> fu,
                        std::vector<Solver::StateStateDimMatrix> & fxx,
                        std::vector<Solver::InputInputDimMatrix> & fuu,
                        std::vector<Solver::StateInputDimMatrix> & fxu) const override
  {
    tick(1, 1000);
    calcStateEqDeriv(t, x, u, fx, fu);
    const auto & m = p->mode(t);
    auto z = p->z(t, x, u);
    for(size_t k = 0; k < fxx.size() && k < (size_t)NX; k++)
    {
      for(int i = 0; i < NX; i++)
      {
        for(int j = 0; j < NX; j++) fxx[k](i, j) = peval(m.f[k], z.data(), 1 + i, 1 + j);
        for(int j = 0; j < m.nu; j++) fxu[k](i, j) = peval(m.f[k], z.data(), 1 + i, 1 + NX + j);
      }
      for(int i = 0; i < m.nu; i++)
        for(int j = 0; j < m.nu; j++) fuu[k](i, j) = peval(m.f[k], z.data(), 1 + NX + i, 1 + NX + j);
    }
  }
  void calcRunningCostDeriv(double t, const X & x, const U & u, Eigen::Ref<X> lx, Eigen::Ref<U> lu) const override
  {
    tick(1, 1000);
    const auto & m = p->mode(t);
    auto z = p->z(t, x, u);
    for(int i = 0; i < NX; i++) lx[i] = peval(m.l, z.data(), 1 + i);
    for(int i = 0; i < m.nu; i++) lu[i] = peval(m.l, z.data(), 1 + NX + i);
    if(!m.tab.empty()) lu[0] = m.nearest(u[0])->g;
  }
  void calcRunningCostDeriv(double t,
                            const X & x,
                            const U & u,
                            Eigen::Ref<X> lx,
                            Eigen::Ref<U> lu,
                            Eigen::Ref<Solver::StateStateDimMatrix> lxx,
                            Eigen::Ref<Solver::InputInputDimMatrix> luu,
                            Eigen::Ref<Solver::StateInputDimMatrix> lxu) const override
  {
    tick(1, 1000);
    calcRunningCostDeriv(t, x, u, lx, lu);
    const auto & m = p->mode(t);
    auto z = p->z(t, x, u);
    for(int i = 0; i < NX; i++)
    {
      for(int j = 0; j < NX; j++) lxx(i, j) = peval(m.l, z.data(), 1 + i, 1 + j);
      for(int j = 0; j < m.nu; j++) lxu(i, j) = peval(m.l, z.data(), 1 + i, 1 + NX + j);
    }
    for(int i = 0; i < m.nu; i++)
      for(int j = 0; j < m.nu; j++) luu(i, j) = peval(m.l, z.data(), 1 + NX + i, 1 + NX + j);
    if(!m.tab.empty()) luu(0, 0) = m.nearest(u[0])->h;
  }
  void calcTerminalCostDeriv(double t, const X & x, Eigen::Ref<X> vx) const override
  {
    tick(1, 1000);
    auto z = p->z(t, x, Eigen::VectorXd());
    for(int i = 0; i < NX; i++) vx[i] = peval(p->phi, z.data(), 1 + i);
  }
  void calcTerminalCostDeriv(double t,
                             const X & x,
                             Eigen::Ref<X> vx,
                             Eigen::Ref<Solver::StateStateDimMatrix> vxx) const override
  {
    tick(1, 1000);
    calcTerminalCostDeriv(t, x, vx);
    auto z = p->z(t, x, Eigen::VectorXd());
    for(int i = 0; i < NX; i++)
      for(int j = 0; j < NX; j++) vxx(i, j) = peval(p->phi, z.data(), 1 + i, 1 + j);
  }
};

struct Cfg
{
  int N, maxIter, reg, lim, second, print;
  double lam0, dlam0, fac, lmin, lmax, kthre, lthre, rthre, cthre;
  Eigen::VectorXd alphas; // empty: keep the default list
  void read(In & in)
  {
    N = (int)in.num();
    maxIter = (int)in.num();
    reg = (int)in.num();
    lim = (int)in.num();
    second = (int)in.num();
    print = (int)in.num();
    lam0 = in.dbl();
    dlam0 = in.dbl();
    fac = in.dbl();
    lmin = in.dbl();
    lmax = in.dbl();
    kthre = in.dbl();
    lthre = in.dbl();
    rthre = in.dbl();
    cthre = in.dbl();
    alphas = in.vec();
  }
  void apply(Solver & s) const
  {
    auto & c = s.config();
    if(reg < 0) // keep the defaults
    {
      c.horizon_steps = N;
      c.print_level = print;
      if(maxIter >= 0) c.max_iter = maxIter;
      return;
    }
    c.horizon_steps = N;
    c.max_iter = maxIter;
    c.reg_type = reg;
    c.with_input_constraint = lim != 0;
    c.use_state_eq_second_derivative = second != 0;
    c.print_level = print;
    c.initial_lambda = lam0;
    c.initial_dlambda = dlam0;
    c.lambda_factor = fac;
    c.lambda_min = lmin;
    c.lambda_max = lmax;
    c.k_rel_norm_thre = kthre;
    c.lambda_thre = lthre;
    c.cost_update_ratio_thre = rthre;
    c.cost_update_thre = cthre;
    c.alpha_list = alphas;
  }
};
struct Args
{
  double t0;
  X x0;
  std::vector<U> u0;
  void read(In & in)
  {
    t0 = in.dbl();
    Eigen::VectorXd x = in.vec();
    x0 = x;
    u0.clear();
    for(auto & v : in.vecs())
    {
#if NUT >= 0
      U w = U::Zero();
      for(int i = 0; i < NUT && i < v.size(); i++) w[i] = v[i];
      u0.push_back(w);
#else
      u0.push_back(v);
#endif
    }
  }
};

std::shared_ptr<Solver> make(const std::shared_ptr<PolyProblem> & prob)
{
  auto s = std::make_shared<Solver>(prob);
  auto p = prob->p;
  s->setInputLimitsFunc(
      [p](double t)
      {
        tick(2, 3);
        const auto & m = p->mode(t);
        std::array<U, 2> r;
        r[0].resize(m.nu);
        r[1].resize(m.nu);
        for(int i = 0; i < m.nu; i++)
        {
          r[0][i] = peval(m.lo[i], &t);
          r[1][i] = peval(m.hi[i], &t);
        }
        return r;
      });
  return s;
}

// flags: 1 = durations, 2 = captured output, 4 = trace dump, 8 = leave the trajectory out, 16 = configuration
void observe(Solver & s, const Args & a, int flags, Out & o, int & rows)
{
  int ret = -1;
  std::string exc;
  Capture cap((flags & 2) != 0);
  if(flags & 1) vh_clock(true);
  try
  {
    ret = s.solve(a.t0, a.x0, a.u0) ? 1 : 0;
  }
  catch(const std::exception & e)
  {
    exc = excName(e);
  }
  vh_clock(false);
  long bytes = cap.stop();
  o.open('{').key("ret").num(ret).key("exc").str(exc);
  if(flags & 16)
  {
    const auto & c = s.config();
    o.key("cf").open('{').key("lam0").dbl(c.initial_lambda).key("dlam0").dbl(c.initial_dlambda);
    o.key("fac").dbl(c.lambda_factor).key("lmin").dbl(c.lambda_min).key("lmax").dbl(c.lambda_max);
    o.key("kthre").dbl(c.k_rel_norm_thre).key("lthre").dbl(c.lambda_thre).key("rthre").dbl(c.cost_update_ratio_thre);
    o.key("cthre").dbl(c.cost_update_thre).key("alphas").vec(c.alpha_list).key("reg").num(c.reg_type);
    o.key("lim").raw(c.with_input_constraint ? "true" : "false").close('}');
  }
  if(flags & 2) o.key("out").num(bytes);
  // what is reported about a finished solve does not depend on settings changed afterwards
  const auto saved = s.config();
  s.config().horizon_steps = saved.horizon_steps == 1 ? 2 : 1;
  s.config().max_iter = saved.max_iter > 1 ? 1 : 3;
  s.config().alpha_list = Eigen::VectorXd::Constant(1, 0.5);
  s.config().with_input_constraint = !saved.with_input_constraint;
  const auto & cd = s.controlData();
  if(!(flags & 8))
  {
    o.key("x").vecs(cd.x_list).key("u").vecs(cd.u_list).key("c").vec(cd.cost_list);
  }
  const auto & tl = s.traceDataList();
  rows = (int)tl.size();
  o.key("rows").open('[');
  for(const auto & r : tl)
  {
    o.open('{').key("it").num(r.iter).key("cost").dbl(r.cost).key("lam").dbl(r.lambda).key("dlam").dbl(r.dlambda);
    o.key("al").dbl(r.alpha).key("kr").dbl(r.k_rel_norm).key("ca").dbl(r.cost_update_actual);
    o.key("ce").dbl(r.cost_update_expected).key("cr").dbl(r.cost_update_ratio).close('}');
  }
  o.close(']');
  if(flags & 1)
  {
    o.key("tk").open('[').num(vh_ticks(0)).num(vh_ticks(1)).num(vh_ticks(2)).close(']');
    o.key("rd").open('[');
    for(const auto & r : tl)
    {
      o.open('[').dbl(r.duration_derivative).dbl(r.duration_backward).dbl(r.duration_forward).close(']');
    }
    o.close(']');
    const auto & d = s.computationDuration();
    o.key("dur").open('{').key("solve").dbl(d.solve).key("setup").dbl(d.setup).key("opt").dbl(d.opt);
    o.key("derivative").dbl(d.derivative).key("backward").dbl(d.backward).key("forward").dbl(d.forward);
    o.key("Q").dbl(d.Q).key("reg").dbl(d.reg).key("gain").dbl(d.gain).close('}');
  }
  if(flags & 4) dumpRows(o, [&](const std::string & name) { s.dumpTraceDataList(name); });
  s.config() = saved;
  o.close('}');
}

// something else that the solver did before: another horizon, start time, setting, perhaps a rejected call
void disturb(Solver & s, const std::shared_ptr<PolyProblem> & prob, const Cfg & cf, const Args & a, int k)
{
  Cfg c = cf;
  if(c.reg < 0) // defaults in use: keep everything but horizon and budget
    c.N = cf.N + 1 + k % 3;
  else
  {
    c.N = k % 4 == 3 ? std::max(0, cf.N - 1) : cf.N + 1 + k % 3;
    c.lim = k % 2;
    c.lam0 = k % 3 == 1 ? 10.0 : cf.lam0;
  }
  c.maxIter = 1 + k % 4;
  c.apply(s);
  Args b = a;
  b.t0 = a.t0 + (k % 3) * prob->p->dt;
  b.x0 = -0.5 * a.x0 + X::Constant(0.1 * (1 + k % 5));
  b.u0.clear();
  for(int i = 0; i < c.N; i++)
  {
    U u;
    u.resize(prob->p->mode(b.t0 + i * prob->p->dt).nu);
    u.setConstant(0.1 * ((i + k) % 7) - 0.3);
    b.u0.push_back(u);
  }
  if(k % 5 == 4) b.u0.push_back(U());
  try
  {
    s.solve(b.t0, b.x0, b.u0);
  }
  catch(const std::exception &)
  {
  }
}

// ddp <problem> P <cfg> <args> <K> <flags>      runs of solvers with budgets 0..K: fresh ones, or (flag 32) one and
//                                               the same that solves something else before each run
// ddp <problem> S <session>, T <threads>
void handle(In & in, Out & o)
{
  auto prob = std::make_shared<PolyProblem>(readProb(in));
  std::string op = in.word();
  o.open('[');
  if(op == "P")
  {
    Cfg cf;
    cf.read(in);
    Args a;
    a.read(in);
    int K = (int)in.num();
    int flags = (int)in.num();
    int stopped = 0;
    std::shared_ptr<Solver> s;
    for(int k = 0; k <= K && stopped < 2; k++)
    {
      if(!s || !(flags & 32)) s = make(prob);
      if(flags & 32) disturb(*s, prob, cf, a, k + (flags >> 6));
      cf.maxIter = k;
      cf.apply(*s);
      int rows = 0;
      observe(*s, a, flags, o, rows);
      if(rows != k + 1) stopped++;
    }
  }
  else if(op == "T")
  {
    threads<Solver, Cfg, Args>(
        in, o, [&]() { return make(prob); },
        [](Solver & s, const Args & a, int flags, Out & r)
        {
          int rows = 0;
          observe(s, a, flags, r, rows);
        });
  }
  else
  {
    session<Solver, Cfg, Args>(
        in, o, [&]() { return make(prob); },
        [](Solver & s, const Args & a, int flags, Out & r)
        {
          int rows = 0;
          observe(s, a, flags, r, rows);
        });
  }
  o.close(']');
}

#define STR2(x) #x
#define STR(x) STR2(x)
Reg reg(NUT < 0 ? "ddp" STR(NX) "xD" : "ddp" STR(NX) "x" STR(NUT), handle);
} // namespace
