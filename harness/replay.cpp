// Native side of the harness vocabulary: runs an entry of a harness on concrete inputs against the real code.
// Input lines "entry v1 v2 ..."; each runs in a forked child (time limit 5 s).  Output per line:
//   OUT n / ASSUME / FAIL id / DONE lines, then "END ok" or "END signal n" / "END exit n".
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <sstream>
#include <iostream>
#include <unistd.h>
#include <sys/wait.h>
#include <sys/resource.h>
struct sv_entry { const char* name; void (*fn)(); };
extern sv_entry sv_entries[];
static std::vector<std::string> in;
static size_t pos;
static const char* next() { return pos < in.size() ? in[pos++].c_str() : "0"; }
extern "C" {
long sv_range(long, long) { return strtol(next(), nullptr, 10); }
unsigned long sv_urange(unsigned long, unsigned long) { return strtoul(next(), nullptr, 10); }
long sv_case(long, long) { return strtol(next(), nullptr, 10); }
void sv_assume(bool c) { if (!c) { puts("ASSUME"); fflush(stdout); _exit(0); } }
void sv_assert(bool c, int id) { if (!c) { printf("FAIL %d\n", id); fflush(stdout); _exit(3); } }
void sv_out(long v) { printf("OUT %ld\n", v); }
void sv_done() { puts("DONE"); }
}
static void run(const std::string& line)
{
  std::istringstream is(line);
  std::string name, v;
  is >> name; in.clear(); pos = 0;
  while (is >> v) in.push_back(v);
  for (sv_entry* e = sv_entries; e->name; ++e)
    if (name == e->name) { e->fn(); fflush(stdout); _exit(0); }
  puts("NOENTRY"); fflush(stdout); _exit(4);
}
int main(int argc, char** argv)
{
  std::string line;
  if (argc > 1) { for (int i = 1; i < argc; ++i) line += std::string(argv[i]) + " "; run(line); }
  struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
  while (std::getline(std::cin, line)) {
    fflush(stdout);
    pid_t p = fork();
    if (p == 0) { alarm(5); run(line); }
    int st = 0; waitpid(p, &st, 0);
    if (WIFSIGNALED(st)) printf("END signal %d\n", WTERMSIG(st));
    else if (WEXITSTATUS(st)) printf("END exit %d\n", WEXITSTATUS(st));
    else puts("END ok");
  }
}
