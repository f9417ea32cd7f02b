// Driver of the C/GMRES solver: one solver object, a history of operations, the solver's state after each.
// run() writes to fixed paths /tmp/cgmres_*; opening them is redirected to a scratch directory.
#include "common.h"

#include <cmath>
#include <cstdarg>
#include <dlfcn.h>
#include <fstream>
#include <sys/stat.h>

#include <nmpc_cgmres/CgmresSolver.h>

namespace
{
std::string g_dir; // scratch directory; empty: no redirection
std::string redirect(const char * path)
{
  static const std::string pre = "/tmp/cgmres";
  if(path && !g_dir.empty() && strncmp(path, pre.c_str(), pre.size()) == 0) return g_dir + (path + 4);
  return path ? path : "";
}
} // namespace
extern "C" FILE * fopen(const char * path, const char * mode)
{
  static auto real = (FILE * (*)(const char *, const char *)) dlsym(RTLD_NEXT, "fopen");
  return real(redirect(path).c_str(), mode);
}
extern "C" FILE * fopen64(const char * path, const char * mode)
{
  static auto real = (FILE * (*)(const char *, const char *)) dlsym(RTLD_NEXT, "fopen64");
  return real(redirect(path).c_str(), mode);
}
extern "C" int open(const char * path, int flags, ...)
{
  static auto real = (int (*)(const char *, int, ...))dlsym(RTLD_NEXT, "open");
  va_list ap;
  va_start(ap, flags);
  int mode = va_arg(ap, int);
  va_end(ap);
  return real(redirect(path).c_str(), flags, mode);
}
extern "C" int open64(const char * path, int flags, ...)
{
  static auto real = (int (*)(const char *, int, ...))dlsym(RTLD_NEXT, "open64");
  va_list ap;
  va_start(ap, flags);
  int mode = va_arg(ap, int);
  va_end(ap);
  return real(redirect(path).c_str(), flags, mode);
}

namespace
{
using namespace h;
using CV = const Eigen::Ref<const Eigen::VectorXd> &;
using MV = Eigen::Ref<Eigen::VectorXd>;

struct Problem : nmpc_cgmres::CgmresProblem
{
  std::vector<Poly> f;
  Poly l, phi;
  int nx, nu;
  std::vector<double> z(double t, CV x, CV u) const
  {
    std::vector<double> r{t};
    for(int i = 0; i < x.size(); i++) r.push_back(x[i]);
    for(int i = 0; i < u.size(); i++) r.push_back(u[i]);
    r.resize(r.size() + 8, std::nan(""));
    return r;
  }
  void stateEquation(double t, CV x, CV u, MV dx) override
  {
    auto zz = z(t, x, u);
    for(int i = 0; i < nx; i++) dx[i] = peval(f[i], zz.data());
  }
  void costateEquation(double t, CV lmd, CV xu, MV dl) override
  {
    auto zz = z(t, xu.head(nx), xu.tail(nu));
    Eigen::VectorXd r(nx);
    for(int k = 0; k < nx; k++)
    {
      double s = peval(l, zz.data(), 1 + k);
      for(int j = 0; j < nx; j++) s += lmd[j] * peval(f[j], zz.data(), 1 + k);
      r[k] = -s;
    }
    dl = r;
  }
  void calcDphiDx(double t, CV x, MV d) override
  {
    auto zz = z(t, x, Eigen::VectorXd(0));
    for(int k = 0; k < nx; k++) d[k] = peval(phi, zz.data(), 1 + k);
  }
  void calcDhDu(double t, CV x, CV u, CV lmd, MV d) override
  {
    auto zz = z(t, x, u);
    for(int k = 0; k < nu; k++)
    {
      double s = peval(l, zz.data(), 1 + nx + k);
      for(int j = 0; j < nx; j++) s += lmd[j] * peval(f[j], zz.data(), 1 + nx + k);
      d[k] = s;
    }
  }
};

std::shared_ptr<nmpc_cgmres::OdeSolver> odeOf(long k)
{
  if(k == 0) return std::make_shared<nmpc_cgmres::EulerOdeSolver>();
  if(k == 1) return std::make_shared<nmpc_cgmres::RungeKuttaOdeSolver>();
  return nullptr;
}

void log(Out & o, const std::string & key, const std::string & file)
{
  o.key(key).open('[');
  std::ifstream ifs(file);
  std::string line;
  while(std::getline(ifs, line))
  {
    for(char & ch : line)
      if(ch == ',') ch = ' ';
    std::istringstream is(line);
    std::string w;
    o.open('[');
    while(is >> w) o.dbl(strtod(w.c_str(), nullptr));
    o.close(']');
  }
  o.close(']');
}

void state(Out & o, const nmpc_cgmres::CgmresSolver & s)
{
  o.key("x").vec(s.x_).key("u").vec(s.u_).key("ul").cols(s.u_list_).key("d").vec(s.delta_u_vec_).key("D").cols(s.DhDu_list_);
}

// cgmres <nx> <nu> <ode> <sim> x u f... l phi <nops> { op }
Reg reg("cgmres",
        [](In & in, Out & o)
        {
          auto p = std::make_shared<Problem>();
          p->nx = p->dim_x_ = (int)in.num();
          p->nu = p->dim_uc_ = (int)in.num();
          p->dim_c_ = p->nx % 2 ? p->nu / 2 : 0; // how the inputs are divided is up to the problem
          p->dim_u_ = p->nu - p->dim_c_;
          auto ode = odeOf(in.num());
          auto sim = odeOf(in.num());
          p->x_initial_ = in.vec();
          p->u_initial_ = in.vec();
          p->state_eq_param_.setZero(1);
          p->f = readPolys(in);
          p->l = readPoly(in);
          p->phi = readPoly(in);
          auto s = std::make_shared<nmpc_cgmres::CgmresSolver>(p, ode, sim);
          auto simu = sim ? sim : ode;
          long n = in.num();
          o.open('[');
          for(long k = 0; k < n; k++)
          {
            std::string op = in.word();
            o.open('{').key("op").str(op);
            if(op == "cfg")
            {
              s->sim_duration_ = in.dbl();
              s->steady_horizon_duration_ = in.dbl();
              s->horizon_divide_num_ = (int)in.num();
              s->horizon_increase_ratio_ = in.dbl();
              s->dt_ = in.dbl();
              s->eq_zeta_ = in.dbl();
              s->k_max_ = (int)in.num();
              s->finite_diff_delta_ = in.dbl();
              s->dump_step_ = (int)in.num();
            }
            else if(op == "init") // other initial values for the next setup
            {
              p->x_initial_ = in.vec();
              p->u_initial_ = in.vec();
            }
            else if(op == "setup")
            {
              s->setup();
            }
            else if(op == "other") // another solver at work
            {
              auto p2 = std::make_shared<Problem>(*p);
              p2->x_initial_ = -0.5 * p->x_initial_;
              p2->u_initial_.setConstant(0.3);
              auto s2 = std::make_shared<nmpc_cgmres::CgmresSolver>(p2, ode, sim);
              s2->horizon_divide_num_ = (int)in.num();
              s2->steady_horizon_duration_ = 0.4;
              s2->k_max_ = 3;
              s2->setup();
              Eigen::VectorXd x = p2->x_initial_, u = Eigen::VectorXd::Zero(p->nu);
              s2->calcControlInput(0.7, x, 1.01 * x, u);
            }
            else if(op == "dhdu")
            {
              double t = in.dbl();
              Eigen::VectorXd x = in.vec();
              auto ul = in.vecs();
              Eigen::MatrixXd U(p->nu, (long)ul.size()), R = Eigen::MatrixXd::Constant(p->nu, (long)ul.size(), std::nan(""));
              for(size_t i = 0; i < ul.size(); i++) U.col((long)i) = ul[i];
              Eigen::VectorXd x0 = x;
              s->calcDhDuList(t, x, U, R);
              o.key("R").cols(R).key("arg").cols(U).key("ax").vec(x);
            }
            else if(op == "ctl")
            {
              double t = in.dbl();
              Eigen::VectorXd x = in.vec(), nx = in.vec();
              Eigen::VectorXd u = Eigen::VectorXd::Constant(p->nu, std::nan(""));
              s->calcControlInput(t, x, nx, u);
              o.key("ret").vec(u);
            }
            else if(op == "step")
            {
              double t = in.dbl();
              Eigen::VectorXd nx = Eigen::VectorXd::Constant(p->nx, std::nan(""));
              simu->solve([&](double tt, CV x, CV u, MV dx) { p->stateEquation(tt, x, u, dx); }, t, s->x_, s->u_, s->dt_, nx);
              s->calcControlInput(t, s->x_, nx, s->u_);
              s->x_ = nx;
              o.key("ret").vec(s->u_);
            }
            else if(op == "run")
            {
              char name[] = "/tmp/vhcgXXXXXX";
              if(!mkdtemp(name)) exit(3);
              g_dir = name;
              s->run();
              log(o, "lx", g_dir + "/cgmres_x.dat");
              log(o, "lu", g_dir + "/cgmres_u.dat");
              log(o, "le", g_dir + "/cgmres_err.dat");
              double ldt = std::nan("");
              {
                std::ifstream ifs(g_dir + "/cgmres_param.dat");
                std::string w;
                while(ifs >> w)
                  if(w == "\"log_dt\":" && (ifs >> w)) ldt = strtod(w.c_str(), nullptr);
              }
              o.key("ldt").dbl(ldt);
              for(const char * f : {"/cgmres_x.dat", "/cgmres_u.dat", "/cgmres_err.dat", "/cgmres_param.dat"})
                unlink((g_dir + f).c_str());
              rmdir(g_dir.c_str());
              g_dir.clear();
            }
            if(op != "cfg" && op != "init" && op != "other") state(o, *s);
            o.close('}');
          }
          o.close(']');
        });
} // namespace
