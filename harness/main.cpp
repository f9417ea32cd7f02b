// usage: harness INPUT OUTPUT FIRST
// Executes the cases of INPUT from index FIRST on. For every case one line "<index> <json>" is appended
// to OUTPUT and flushed, so that the caller can tell which case a crash or hang belongs to.
#include "common.h"

#include <fstream>
#include <signal.h>
#include <unistd.h>

namespace h
{
std::map<std::string, Handler> & handlers()
{
  static std::map<std::string, Handler> m;
  return m;
}
} // namespace h

int main(int argc, char ** argv)
{
  if(argc < 4) return 3;
  std::ifstream ifs(argv[1]);
  std::ofstream ofs(argv[2], std::ios::app);
  long first = atol(argv[3]);
  h::In top{ifs};
  std::string line;
  long idx = 0;
  while(std::getline(ifs, line))
  {
    if(line.empty()) continue;
    if(idx >= first)
    {
      std::istringstream iss(line);
      h::In in{iss};
      std::string kind = in.word();
      auto it = h::handlers().find(kind);
      if(it == h::handlers().end())
      {
        fprintf(stderr, "harness: no handler for %s\n", kind.c_str());
        return 3;
      }
      h::Out out;
      alarm(20);
      it->second(in, out);
      alarm(0);
      ofs << idx << ' ' << out.s << std::endl;
    }
    idx++;
  }
  return 0;
}
