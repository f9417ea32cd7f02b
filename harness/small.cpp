// Drivers of the self-contained solvers: box QP, GMRES, ODE steps, L1 directional derivative.
#include "common.h"

#include <cmath>

#include <nmpc_ddp/BoxQP.h>

#include <nmpc_cgmres/Gmres.h>
#include <nmpc_cgmres/OdeSolver.h>
#include <nmpc_fmpc/MathUtils.h>

namespace
{
using namespace h;

// ------------------------------------------------------------------ box QP
// box <dim or -1> <n> { <fresh> <print> <maxIter> <withGuess> H g lo hi x0 }
template<int D>
void boxRun(In & in, Out & o)
{
  using S = nmpc_ddp::BoxQP<D>;
  long n = in.num();
  std::shared_ptr<S> s;
  int sdim = -1;
  o.open('[');
  for(long k = 0; k < n; k++)
  {
    int fresh = (int)in.num();
    int print = (int)in.num();
    int maxIter = (int)in.num();
    int guess = (int)in.num();
    Eigen::MatrixXd H = in.mat();
    Eigen::VectorXd g = in.vec(), lo = in.vec(), hi = in.vec(), x0 = in.vec();
    int dim = (int)g.size();
    if(fresh || !s || sdim != dim) s = std::make_shared<S>(dim);
    sdim = dim;
    s->config().print_level = print;
    s->config().max_iter = maxIter;
    typename S::VarVarDimMatrix HH = H;
    typename S::VarDimVector gg = g, l2 = lo, h2 = hi, xx = x0, x;
    Capture cap(true);
    x = guess ? s->solve(HH, gg, l2, h2, xx) : s->solve(HH, gg, l2, h2);
    long bytes = cap.stop();
    o.open('{').key("x").vec(x).key("ret").num(s->retval_).key("out").num(bytes);
    o.key("free").open('[');
    for(int i : s->free_idxs_) o.num(i + 1);
    o.close(']');
    o.key("LL");
    if(s->llt_free_)
      o.cols(Eigen::MatrixXd(s->llt_free_->reconstructedMatrix()));
    else
      o.open('[').close(']');
    o.key("rows").open('[');
    for(const auto & r : s->traceDataList())
    {
      o.open('{').key("it").num(r.iter).key("x").vec(r.x).key("obj").dbl(r.obj).key("d").vec(r.search_dir);
      o.key("fac").num(r.factorization_num).key("steps").num(r.step_num).key("cl").open('[');
      for(int i = 0; i < r.clamped_flag.size(); i++) o.num(r.clamped_flag[i] ? 1 : 0);
      o.close(']').close('}');
    }
    o.close(']').close('}');
  }
  o.close(']');
}
Reg regBox("box",
           [](In & in, Out & o)
           {
             long d = in.num();
             if(d == 1)
               boxRun<1>(in, o);
             else if(d == 2)
               boxRun<2>(in, o);
             else if(d == 3)
               boxRun<3>(in, o);
             else
               boxRun<Eigen::Dynamic>(in, o);
           });

// ------------------------------------------------------------------ GMRES
// gmres <n> { <fresh> <asFunction> <triangular> <reorth> <kmax> <eps> A b x0 }
Reg regGmres("gmres",
             [](In & in, Out & o)
             {
               long n = in.num();
               std::shared_ptr<nmpc_cgmres::Gmres> s;
               o.open('[');
               for(long k = 0; k < n; k++)
               {
                 int fresh = (int)in.num();
                 int func = (int)in.num();
                 int tri = (int)in.num();
                 int reorth = (int)in.num();
                 int kmax = (int)in.num();
                 double eps = in.dbl();
                 Eigen::MatrixXd A = in.mat();
                 Eigen::Ref<const Eigen::MatrixXd> Ar(A);
                 Eigen::VectorXd b = in.vec(), x = in.vec();
                 if(fresh || !s) s = std::make_shared<nmpc_cgmres::Gmres>();
                 s->make_triangular_ = tri != 0;
                 s->apply_reorth_ = reorth != 0;
                 long calls = 0;
                 if(func)
                 {
                   nmpc_cgmres::Gmres::AmulFunc f = [&](const Eigen::Ref<const Eigen::VectorXd> & v) -> Eigen::VectorXd
                   {
                     calls++;
                     return A * v;
                   };
                   if(kmax < 0)
                     s->solve(f, b, x);
                   else
                     s->solve(f, b, x, kmax, eps);
                 }
                 else
                 {
                   if(kmax < 0)
                     s->solve(Ar, b, x);
                   else
                     s->solve(Ar, b, x, kmax, eps);
                 }
                 Eigen::VectorXd e = Eigen::Map<Eigen::VectorXd>(s->err_list_.data(), (long)s->err_list_.size());
                 o.open('{').key("x").vec(x).key("err").vec(e).key("basis").vecs(s->basis_).close('}');
               }
               o.close(']');
             });

// ------------------------------------------------------------------ ODE steps
// ode <kind> <alias> <nest> <t> x u <dt> f...
Reg regOde("ode",
           [](In & in, Out & o)
           {
             int kind = (int)in.num();
             int alias = (int)in.num();
             int nest = (int)in.num();
             double t = in.dbl();
             Eigen::VectorXd x = in.vec(), u = in.vec();
             double dt = in.dbl();
             auto f = readPolys(in);
             std::shared_ptr<nmpc_cgmres::OdeSolver> s;
             auto make = [](int k) -> std::shared_ptr<nmpc_cgmres::OdeSolver>
             {
               if(k) return std::make_shared<nmpc_cgmres::RungeKuttaOdeSolver>();
               return std::make_shared<nmpc_cgmres::EulerOdeSolver>();
             };
             s = make(kind);
             std::shared_ptr<nmpc_cgmres::OdeSolver> s2 = nest == 1 ? s : make(nest == 3 ? !kind : kind);
             Eigen::VectorXd times(0);
             Eigen::VectorXd xi = 0.5 * x;
             std::vector<Eigen::VectorXd> inner;
             bool busy = false;
             nmpc_cgmres::OdeSolver::StateEquation eq = [&](double tt, const Eigen::Ref<const Eigen::VectorXd> & xx,
                           const Eigen::Ref<const Eigen::VectorXd> & uu, Eigen::Ref<Eigen::VectorXd> dx)
             {
               std::vector<double> z{tt};
               for(int i = 0; i < xx.size(); i++) z.push_back(xx[i]);
               for(int i = 0; i < uu.size(); i++) z.push_back(uu[i]);
               z.resize(z.size() + 8, std::nan(""));
               for(int i = 0; i < (int)f.size() && i < dx.size(); i++) dx[i] = peval(f[i], z.data());
               if(busy) return;
               times.conservativeResize(times.size() + 1);
               times[times.size() - 1] = tt;
               if(!nest) return;
               busy = true;
               Eigen::VectorXd r2 = Eigen::VectorXd::Constant(xi.size(), std::nan(""));
               s2->solve(eq, t + 1, xi, u, 0.5 * dt, r2);
               inner.push_back(r2);
               busy = false;
             };
             Eigen::VectorXd ret = Eigen::VectorXd::Constant(x.size(), std::nan(""));
             if(alias)
             {
               s->solve(eq, t, x, u, dt, x);
               ret = x;
             }
             else
               s->solve(eq, t, x, u, dt, ret);
             o.open('[').open('{').key("ret").vec(ret).key("x").vec(x).key("u").vec(u).key("times").vec(times).key("inner").vecs(inner).close('}').close(']');
           });

// ------------------------------------------------------------------ L1 directional derivative
// l1 <fixed> f J d
template<int I, int O>
double l1(const Eigen::VectorXd & f, const Eigen::MatrixXd & J, const Eigen::VectorXd & d)
{
  Eigen::Matrix<double, O, 1> ff = f;
  Eigen::Matrix<double, O, I> JJ = J;
  Eigen::Matrix<double, I, 1> dd = d;
  return nmpc_fmpc::l1NormDirectionalDeriv<I, O>(ff, JJ, dd);
}
Reg regL1("l1",
          [](In & in, Out & o)
          {
            int fixed = (int)in.num();
            Eigen::VectorXd f = in.vec();
            Eigen::MatrixXd J = in.mat();
            Eigen::VectorXd d = in.vec();
            double r;
            long a = d.size(), b = f.size();
            if(fixed && a == 1 && b == 1)
              r = l1<1, 1>(f, J, d);
            else if(fixed && a == 2 && b == 3)
              r = l1<2, 3>(f, J, d);
            else if(fixed && a == 3 && b == 2)
              r = l1<3, 2>(f, J, d);
            else if(fixed && a == 2 && b == 2)
              r = l1<2, 2>(f, J, d);
            else
              r = l1<Eigen::Dynamic, Eigen::Dynamic>(f, J, d);
            o.open('[').open('{').key("r").dbl(r).close('}').close(']');
          });
} // namespace
