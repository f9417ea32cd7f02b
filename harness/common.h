// Shared by all harness programs: token input, JSON output, polynomial problem data.
#pragma once
#include <atomic>
#include <condition_variable>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <mutex>
#include <sstream>
#include <stdexcept>
#include <string>
#include <thread>
#include <unordered_map>
#include <vector>

#include <fcntl.h>
#include <unistd.h>

#include <Eigen/Dense>

namespace h
{
// ---------------------------------------------------------------- input
struct In
{
  std::istream & is;
  std::string word()
  {
    std::string s;
    if(!(is >> s))
    {
      fprintf(stderr, "harness: unexpected end of input\n");
      exit(3);
    }
    return s;
  }
  long num()
  {
    return strtol(word().c_str(), nullptr, 10);
  }
  double dbl()
  {
    uint64_t b = strtoull(word().c_str(), nullptr, 16);
    double d;
    memcpy(&d, &b, 8);
    return d;
  }
  Eigen::VectorXd vec()
  {
    long n = num();
    Eigen::VectorXd v(n);
    for(long i = 0; i < n; i++) v[i] = dbl();
    return v;
  }
  std::vector<Eigen::VectorXd> vecs()
  {
    long n = num();
    std::vector<Eigen::VectorXd> l;
    for(long i = 0; i < n; i++) l.push_back(vec());
    return l;
  }
  Eigen::MatrixXd mat()
  {
    long r = num(), c = num();
    Eigen::MatrixXd m(r, c);
    for(long i = 0; i < r; i++)
      for(long j = 0; j < c; j++) m(i, j) = dbl();
    return m;
  }
};

// ---------------------------------------------------------------- output (JSON; a double is [hi, lo])
struct Out
{
  std::string s;
  Out & raw(const std::string & x)
  {
    s += x;
    return *this;
  }
  Out & key(const std::string & k)
  {
    char last = s.empty() ? '{' : s.back();
    if(last != '{' && last != '[' && last != ',') s += ',';
    s += '"' + k + "\":";
    return *this;
  }
  void sep()
  {
    if(!s.empty() && s.back() != '[' && s.back() != ':' && s.back() != '{' && s.back() != ',') s += ',';
  }
  Out & open(char c)
  {
    sep();
    s += c;
    return *this;
  }
  Out & close(char c)
  {
    s += c;
    return *this;
  }
  Out & num(long v)
  {
    sep();
    s += std::to_string(v);
    return *this;
  }
  Out & dbl(double d)
  {
    sep();
    uint64_t b;
    memcpy(&b, &d, 8);
    if(d != d) b = 0x7ff8000000000000ull; // one NaN
    char buf[64];
    snprintf(buf, sizeof buf, "[%d,%d]", (int32_t)(b >> 32), (int32_t)(uint32_t)b);
    s += buf;
    return *this;
  }
  Out & str(const std::string & v)
  {
    sep();
    s += '"';
    for(char c : v)
    {
      if(c == '"' || c == '\\')
      {
        s += '\\';
        s += c;
      }
      else if((unsigned char)c < 0x20)
        s += ' ';
      else
        s += c;
    }
    s += '"';
    return *this;
  }
  template<class V>
  Out & vec(const V & v)
  {
    open('[');
    for(int i = 0; i < (int)v.size(); i++) dbl(v[i]);
    return close(']');
  }
  template<class L>
  Out & vecs(const L & l)
  {
    open('[');
    for(const auto & v : l) vec(v);
    return close(']');
  }
  template<class M>
  Out & mat(const M & m) // a matrix of LinAlg.tla
  {
    open('{').key("r").num(m.rows()).key("c").num(m.cols()).key("d").open('[');
    for(int i = 0; i < m.rows(); i++)
      for(int j = 0; j < m.cols(); j++) dbl(m(i, j));
    return close(']').close('}');
  }
  template<class M>
  Out & cols(const M & m) // list of columns
  {
    open('[');
    for(int j = 0; j < m.cols(); j++)
    {
      open('[');
      for(int i = 0; i < m.rows(); i++) dbl(m(i, j));
      close(']');
    }
    return close(']');
  }
};

// ---------------------------------------------------------------- polynomials
struct Mono
{
  double c;
  std::vector<int> e;
};
using Poly = std::vector<Mono>;

inline double mono(double c, const std::vector<int> & e, const double * z)
{
  double p = 1;
  for(size_t i = 0; i < e.size(); i++)
  {
    double q = 1;
    for(int k = 0; k < e[i]; k++) q = q * z[i];
    p = p * q;
  }
  return c * p;
}
inline double peval(const Poly & p, const double * z, int v = -1, int w = -1)
{
  double s = 0;
  for(const auto & m : p)
  {
    double c = m.c;
    if(v < 0)
    {
      s += mono(c, m.e, z);
      continue;
    }
    std::vector<int> e = m.e;
    for(int q : {v, w})
      if(q >= 0)
      {
        c = c * e[q];
        if(e[q] > 0) e[q]--;
      }
    s += mono(c, e, z);
  }
  return s;
}
inline Poly readPoly(In & in)
{
  Poly p;
  long n = in.num();
  for(long i = 0; i < n; i++)
  {
    Mono m;
    m.c = in.dbl();
    long k = in.num();
    for(long j = 0; j < k; j++) m.e.push_back((int)in.num());
    p.push_back(m);
  }
  return p;
}
inline std::vector<Poly> readPolys(In & in)
{
  std::vector<Poly> l;
  long n = in.num();
  for(long i = 0; i < n; i++) l.push_back(readPoly(in));
  return l;
}

// Scripted cost: value, gradient and second derivative at the listed point nearest to the first input
struct Entry
{
  double u, c, g, h;
};
struct Mode
{
  int nu, ng;
  std::vector<Poly> f;
  Poly l;
  std::vector<Poly> g, lo, hi;
  std::vector<Entry> tab;
  const Entry * nearest(double u) const
  {
    const Entry * b = nullptr;
    for(const auto & e : tab)
      if(!b || std::abs(u - e.u) < std::abs(u - b->u)) b = &e;
    return b;
  }
};
struct Prob
{
  int nx;
  double dt, tb;
  std::vector<Mode> modes;
  Poly phi;
  // the mode in force at time t (dt > 0; the base time tb belongs to mode 0)
  const Mode & mode(double t) const
  {
    long k = (long)std::floor((t - tb) / dt + 0.5);
    long n = (long)modes.size();
    return modes[((k % n) + n) % n];
  }
  template<class X, class U>
  std::vector<double> z(double t, const X & x, const U & u) const
  {
    std::vector<double> r;
    r.reserve(9 + x.size() + u.size());
    r.push_back(t);
    for(int i = 0; i < x.size(); i++) r.push_back(x[i]);
    for(int i = 0; i < u.size(); i++) r.push_back(u[i]);
    // a vector of the wrong size must not make the harness read outside of it
    for(int i = 0; i < 8; i++) r.push_back(std::nan(""));
    return r;
  }
};
inline std::shared_ptr<Prob> readProb(In & in)
{
  auto p = std::make_shared<Prob>();
  p->nx = (int)in.num();
  p->dt = in.dbl();
  p->tb = in.dbl();
  long nm = in.num();
  for(long i = 0; i < nm; i++)
  {
    Mode m;
    m.nu = (int)in.num();
    m.ng = (int)in.num();
    m.f = readPolys(in);
    m.l = readPoly(in);
    m.g = readPolys(in);
    m.lo = readPolys(in);
    m.hi = readPolys(in);
    long nt = in.num();
    for(long k = 0; k < nt; k++)
    {
      Entry e;
      e.u = in.dbl();
      e.c = in.dbl();
      e.g = in.dbl();
      e.h = in.dbl();
      m.tab.push_back(e);
    }
    p->modes.push_back(m);
  }
  p->phi = readPoly(in);
  return p;
}

// ---------------------------------------------------------------- capturing what is written to stdout/stderr
struct Capture
{
  bool on;
  int fd = -1, o1 = -1, o2 = -1;
  Capture(bool on_) : on(on_)
  {
    if(!on) return;
    std::cout.flush();
    std::cerr.flush();
    fflush(nullptr);
    char name[] = "/tmp/vhcapXXXXXX";
    fd = mkstemp(name);
    unlink(name);
    o1 = dup(1);
    o2 = dup(2);
    dup2(fd, 1);
    dup2(fd, 2);
  }
  long stop()
  {
    if(!on) return 0;
    std::cout.flush();
    std::cerr.flush();
    std::clog.flush();
    fflush(nullptr);
    dup2(o1, 1);
    dup2(o2, 2);
    long n = (long)lseek(fd, 0, SEEK_END);
    ::close(fd);
    ::close(o1);
    ::close(o2);
    on = false;
    return n;
  }
  ~Capture()
  {
    stop();
  }
};

// Calls dump(file) for a file with earlier, longer content; outputs its lines: words of the first, numbers of the others
template<class F>
void dumpRows(Out & o, F dump)
{
  char name[] = "/tmp/vhdumpXXXXXX";
  int fd = mkstemp(name);
  for(int i = 0; i < 4000; i++)
    if(write(fd, "old 1 2 3\n", 10) != 10) break;
  ::close(fd);
  dump(std::string(name));
  std::ifstream ifs(name);
  std::string line;
  o.key("dump").open('[');
  bool first = true;
  int lines = 0;
  while(std::getline(ifs, line) && ++lines <= 100) // far more than there are trace entries
  {
    std::istringstream iss(line);
    std::string w;
    o.open('[');
    while(iss >> w)
    {
      if(first)
        o.str(w);
      else
        o.dbl(strtod(w.c_str(), nullptr));
    }
    o.close(']');
    first = false;
  }
  o.close(']');
  unlink(name);
}

// ---------------------------------------------------------------- dispatch
using Handler = std::function<void(In &, Out &)>;
std::map<std::string, Handler> & handlers();
struct Reg
{
  Reg(const std::string & name, Handler fn)
  {
    handlers()[name] = fn;
  }
};

// Fills everything allocated from now on with this byte (-1: leave as it comes), see poison.cpp
extern "C" void vh_poison(int byte);
// Overwrites a large part of the unused stack with the given byte
extern "C" void vh_dirty_stack(int byte);

// Virtual time (see poison.cpp); kinds: 0 functions, 1 derivatives, 2 limits
extern "C" void vh_clock(bool on);
extern "C" void vh_tick(int kind, long us);
extern "C" long vh_ticks(int kind);

// What happens inside the at-th call of one of the problem's functions: an exception, or other solves
struct UserError : public std::exception
{
};
struct Hook
{
  long at = 0; // 0: nothing
  std::function<void()> each; // during every call of the problem's functions
  std::function<void()> act;
  static Hook & get()
  {
    static thread_local Hook h;
    return h;
  }
};
inline void tick(int kind, long us)
{
  vh_tick(kind, us);
  Hook & h = Hook::get();
  if(h.each) h.each();
  if(h.at > 0 && --h.at == 0)
  {
    auto act = h.act;
    act();
  }
}

// A session: n calls { <object> <fresh> <poison> <flags> <inner> <at> <throw> <cfg> <args> }. The next <inner> calls happen inside the
// at-th call of the problem's functions by this one (or afterwards, when there are fewer).
template<class Solver, class Cfg, class Args, class Make, class Observe>
void session(In & in, Out & o, Make make, Observe observe)
{
  struct Call
  {
    long id;
    int fresh, poison, flags, inner, at, thr;
    Cfg cf;
    Args a;
  };
  std::vector<Call> calls((size_t)in.num());
  for(auto & c : calls)
  {
    c.id = in.num();
    c.fresh = (int)in.num();
    c.poison = (int)in.num();
    c.flags = (int)in.num();
    c.inner = (int)in.num();
    c.at = (int)in.num();
    c.thr = (int)in.num();
    c.cf.read(in);
    c.a.read(in);
  }
  std::map<long, std::shared_ptr<Solver>> solvers;
  std::vector<Out> outs(calls.size());
  std::function<void(size_t)> run = [&](size_t i)
  {
    Call & c = calls[i];
    vh_poison(c.poison);
    if(c.fresh || !solvers.count(c.id)) solvers[c.id] = make();
    auto s = solvers[c.id];
    c.cf.apply(*s);
    if(c.poison >= 0) vh_dirty_stack(c.poison);
    Hook & h = Hook::get();
    bool done = false;
    h.at = c.inner > 0 || c.thr ? c.at : 0;
    h.act = [&]()
    {
      done = true;
      if(c.thr) throw UserError();
      for(int k = 1; k <= c.inner; k++) run(i + k);
      Hook::get().at = 0;
      vh_poison(c.poison);
    };
    observe(*s, c.a, c.flags, outs[i]);
    h.at = 0;
    vh_poison(-1);
    if(!done && !c.thr)
      for(int k = 1; k <= c.inner; k++) run(i + k);
  };
  for(size_t i = 0; i < calls.size(); i += 1 + calls[i].inner) run(i);
  for(auto & r : outs)
  {
    o.sep();
    o.raw(r.s);
  }
}

// Turns of threads. A thread keeps its turn until it has called the problem's functions `quantum` times or ends; then
// the next one of the schedule that has not ended yet gets it (round robin after the end of the schedule).
struct Turns
{
  std::mutex m;
  std::condition_variable cv;
  std::vector<int> sched;
  std::vector<char> ended;
  size_t next = 0;
  int turn = -1, quantum = 1, left = 0;
  void pass() // with the lock held
  {
    left = quantum;
    size_t n = ended.size();
    while(next < sched.size())
    {
      turn = sched[next++];
      if(!ended[(size_t)turn]) return;
    }
    for(size_t k = 1; k <= n; k++)
    {
      int i = (int)(((size_t)(turn + (int)n) + k) % n);
      if(!ended[(size_t)i])
      {
        turn = i;
        return;
      }
    }
  }
  void wait(int i)
  {
    std::unique_lock<std::mutex> l(m);
    cv.wait(l, [&]() { return turn == i; });
  }
  void callback(int i)
  {
    std::unique_lock<std::mutex> l(m);
    if(--left > 0) return;
    pass();
    if(turn == i) return;
    cv.notify_all();
    cv.wait(l, [&]() { return turn == i; });
  }
  void end(int i)
  {
    std::unique_lock<std::mutex> l(m);
    ended[(size_t)i] = 1;
    pass();
    cv.notify_all();
  }
};

// Calls at the same time: <threads> <rounds> <quantum> <ns> <schedule> and a <cfg> <args> per thread. Results of each call alone,
// followed by those of all rounds. Quantum 0: no turns, threads run freely.
template<class Solver, class Cfg, class Args, class Make, class Observe>
void threads(In & in, Out & o, Make make, Observe observe)
{
  size_t n = (size_t)in.num(), rounds = (size_t)in.num();
  int quantum = (int)in.num();
  std::vector<int> sched((size_t)in.num());
  for(int & i : sched) i = (int)in.num();
  std::vector<Cfg> cf(n);
  std::vector<Args> a(n);
  std::vector<std::shared_ptr<Solver>> solvers(n);
  for(size_t i = 0; i < n; i++)
  {
    cf[i].read(in);
    a[i].read(in);
  }
  std::vector<Out> outs(n * (rounds + 1));
  for(size_t i = 0; i < n; i++)
  {
    auto s = make();
    cf[i].apply(*s);
    observe(*s, a[i], 0, outs[i]);
  }
  for(size_t i = 0; i < n; i++) solvers[i] = make();
  for(size_t r = 1; r <= rounds; r++)
  {
    Turns turns;
    turns.sched = sched;
    turns.quantum = std::max(1, quantum);
    turns.ended.assign(n, 0);
    std::atomic<int> ready{0};
    std::vector<std::thread> ts;
    for(size_t i = 0; i < n; i++)
    {
      ts.emplace_back(
          [&, i]()
          {
            cf[i].apply(*solvers[i]);
            Hook & h = Hook::get();
            if(quantum > 0)
            {
              turns.wait((int)i);
              h.each = [&turns, i]() { turns.callback((int)i); };
            }
            else
            {
              ready++;
              for(long k = 0; ready < (int)n; k++)
                if(k > 2000) std::this_thread::yield();
            }
            observe(*solvers[i], a[i], 0, outs[r * n + i]);
            h.each = nullptr;
            if(quantum > 0) turns.end((int)i);
          });
    }
    {
      std::unique_lock<std::mutex> l(turns.m);
      turns.pass();
      turns.cv.notify_all();
    }
    for(auto & t : ts) t.join();
  }
  for(auto & r : outs)
  {
    o.sep();
    o.raw(r.s);
  }
}

inline std::string excName(const std::exception & e)
{
  if(dynamic_cast<const std::invalid_argument *>(&e)) return "invalid_argument";
  if(dynamic_cast<const std::out_of_range *>(&e)) return "out_of_range";
  if(dynamic_cast<const std::length_error *>(&e)) return "length_error";
  if(dynamic_cast<const std::logic_error *>(&e)) return "logic_error";
  if(dynamic_cast<const std::runtime_error *>(&e)) return "runtime_error";
  if(dynamic_cast<const std::bad_alloc *>(&e)) return "bad_alloc";
  return "exception";
}
} // namespace h
