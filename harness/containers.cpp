// Drivers of the data structures of FMPC and of constructors and queries of dimensions.
#include "common.h"

#include <limits>

#include <nmpc_fmpc/FmpcSolver.h>

#include <nmpc_ddp/BoxQP.h>

namespace
{
using namespace h;

double value(long code)
{
  const double v[] = {0, 1.5, -2, 1e308, std::nan(""), INFINITY, -INFINITY};
  return v[code];
}

// variable: <n ops> { make n | dims n {du dg} | reset 5 codes | put member step component code }
template<class Solver>
void variable(In & in, Out & o)
{
  long n = in.num();
  typename Solver::Variable v;
  for(long k = 0; k < n; k++)
  {
    std::string op = in.word();
    if(op == "make")
    {
      long hs = in.num();
      v = typename Solver::Variable((int)hs);
      v.print_level = 0;
    }
    else if(op == "dims")
    {
      long m = in.num();
      for(long i = 0; i < m; i++)
      {
        long du = in.num(), dg = in.num();
        v.u_list[i].resize(du);
        v.s_list[i].resize(dg);
        v.nu_list[i].resize(dg);
      }
    }
    else if(op == "reset")
    {
      double a[5];
      for(double & e : a) e = value(in.num());
      v.reset(a[0], a[1], a[2], a[3], a[4]);
    }
    else
    {
      std::string m = in.word();
      long i = in.num() - 1, j = in.num() - 1;
      double d = value(in.num());
      if(m == "x")
        v.x_list[i][j] = d;
      else if(m == "u")
        v.u_list[i][j] = d;
      else if(m == "lam")
        v.lambda_list[i][j] = d;
      else if(m == "s")
        v.s_list[i][j] = d;
      else
        v.nu_list[i][j] = d;
    }
    const auto & w = v;
    o.open('{').key("hs").num(w.horizon_steps).key("bad").num(w.containsNaN() ? 1 : 0);
    o.key("v").open('{').key("x").vecs(w.x_list).key("u").vecs(w.u_list).key("lam").vecs(w.lambda_list);
    o.key("s").vecs(w.s_list).key("nu").vecs(w.nu_list).close('}').close('}');
  }
}

// coefficient: du dg member component code
template<class Solver>
void coefficient(In & in, Out & o, int nx)
{
  long du = in.num(), dg = in.num();
  std::string name = in.word();
  long j = in.num();
  double d = value(in.num());
  typename Solver::Coefficient c(nx, (int)du, (int)dg);
  c.print_level = 0;
  long size = -1;
  auto set = [&](const char * m, auto & e)
  {
    e.setConstant(1.5);
    if(name != m) return;
    size = e.size();
    if(j > 0 && j <= size) e.data()[j - 1] = d;
  };
  set("A", c.A);
  set("B", c.B);
  set("C", c.C);
  set("D", c.D);
  set("Lx", c.Lx);
  set("Lu", c.Lu);
  set("Lxx", c.Lxx);
  set("Luu", c.Luu);
  set("Lxu", c.Lxu);
  set("x_bar", c.x_bar);
  set("g_bar", c.g_bar);
  set("Lx_bar", c.Lx_bar);
  set("Lu_bar", c.Lu_bar);
  set("k", c.k);
  set("K", c.K);
  set("s", c.s);
  set("P", c.P);
  const auto & w = c;
  o.open('{').key("size").num(size).key("bad").num(w.containsNaN() ? 1 : 0).close('}');
}

template<class S>
void boxMake(In & in, Out & o)
{
  long a = in.num();
  std::string exc;
  long val = 0;
  try
  {
    std::shared_ptr<S> s = a == -99 ? std::make_shared<S>() : std::make_shared<S>((int)a);
    val = s->var_dim_;
  }
  catch(const std::exception & e)
  {
    exc = excName(e);
  }
  o.open('{').key("exc").str(exc).key("val").num(val).close('}');
}

template<int D, bool Over>
struct Dims : public nmpc_fmpc::FmpcProblem<2, D, D>
{
  using P = nmpc_fmpc::FmpcProblem<2, D, D>;
  using typename P::StateDimVector;
  using typename P::InputDimVector;
  Dims() : P(0.1) {}
  int inputDim() const override
  {
    return Over ? 7 : P::inputDim();
  }
  int inputDim(double t) const override
  {
    return Over ? 7 : P::inputDim(t);
  }
  int ineqDim() const override
  {
    return Over ? 7 : P::ineqDim();
  }
  int ineqDim(double t) const override
  {
    return Over ? 7 : P::ineqDim(t);
  }
  StateDimVector stateEq(double, const StateDimVector & x, const InputDimVector &) const override
  {
    return x;
  }
  double runningCost(double, const StateDimVector &, const InputDimVector &) const override
  {
    return 0;
  }
  double terminalCost(double, const StateDimVector &) const override
  {
    return 0;
  }
  typename P::IneqDimVector ineqConst(double, const StateDimVector &, const InputDimVector &) const override
  {
    return {};
  }
  void calcStateEqDeriv(double,
                        const StateDimVector &,
                        const InputDimVector &,
                        Eigen::Ref<typename P::StateStateDimMatrix>,
                        Eigen::Ref<typename P::StateInputDimMatrix>) const override
  {
  }
  void calcIneqConstDeriv(double,
                          const StateDimVector &,
                          const InputDimVector &,
                          Eigen::Ref<typename P::IneqStateDimMatrix>,
                          Eigen::Ref<typename P::IneqInputDimMatrix>) const override
  {
  }
  void calcRunningCostDeriv(double,
                            const StateDimVector &,
                            const InputDimVector &,
                            Eigen::Ref<StateDimVector>,
                            Eigen::Ref<InputDimVector>) const override
  {
  }
  void calcRunningCostDeriv(double,
                            const StateDimVector &,
                            const InputDimVector &,
                            Eigen::Ref<StateDimVector>,
                            Eigen::Ref<InputDimVector>,
                            Eigen::Ref<typename P::StateStateDimMatrix>,
                            Eigen::Ref<typename P::InputInputDimMatrix>,
                            Eigen::Ref<typename P::StateInputDimMatrix>) const override
  {
  }
  void calcTerminalCostDeriv(double, const StateDimVector &, Eigen::Ref<StateDimVector>) const override {}
  void calcTerminalCostDeriv(double,
                             const StateDimVector &,
                             Eigen::Ref<StateDimVector>,
                             Eigen::Ref<typename P::StateStateDimMatrix>) const override
  {
  }
};
template<int D, bool Over>
void query(const std::string & what, bool time, Out & o)
{
  Dims<D, Over> d;
  const nmpc_fmpc::FmpcProblem<2, D, D> & p = d;
  std::string exc;
  long val = 0;
  try
  {
    if(what == "input")
      val = time ? p.inputDim(0.5) : p.inputDim();
    else
      val = time ? p.ineqDim(0.5) : p.ineqDim();
  }
  catch(const std::exception & e)
  {
    exc = excName(e);
  }
  o.open('{').key("exc").str(exc).key("val").num(val).close('}');
}

template<int NX, int NU, int NG>
void handle(const std::string & kind, In & in, Out & o)
{
  using Solver = nmpc_fmpc::FmpcSolver<NX, NU, NG>;
  if(kind == "variable")
    variable<Solver>(in, o);
  else
    coefficient<Solver>(in, o, NX);
}

// cont variable|coefficient <type> ...; cont dims box|query ...
Reg reg("cont",
        [](In & in, Out & o)
        {
          std::string kind = in.word();
          o.open('[');
          if(kind == "dims")
          {
            std::string op = in.word();
            if(op == "box")
            {
              long t = in.num();
              if(t == -1)
                boxMake<nmpc_ddp::BoxQP<Eigen::Dynamic>>(in, o);
              else if(t == 1)
                boxMake<nmpc_ddp::BoxQP<1>>(in, o);
              else if(t == 2)
                boxMake<nmpc_ddp::BoxQP<2>>(in, o);
              else
                boxMake<nmpc_ddp::BoxQP<3>>(in, o);
            }
            else
            {
              std::string what = in.word();
              long t = in.num();
              bool time = in.num() != 0, over = in.num() != 0;
              if(t == -1)
                over ? query<Eigen::Dynamic, true>(what, time, o) : query<Eigen::Dynamic, false>(what, time, o);
              else if(t == 1)
                over ? query<1, true>(what, time, o) : query<1, false>(what, time, o);
              else
                over ? query<2, true>(what, time, o) : query<2, false>(what, time, o);
            }
          }
          else
          {
            std::string type = in.word();
            if(type == "2,-1,-1")
              handle<2, -1, -1>(kind, in, o);
            else if(type == "2,1,2")
              handle<2, 1, 2>(kind, in, o);
            else if(type == "1,-1,1")
              handle<1, -1, 1>(kind, in, o);
            else
              handle<3, 2, -1>(kind, in, o);
          }
          o.close(']');
        });
} // namespace
