// Exploration runtime: enumerated states, transitions, checks, crash/hang capture, replay of single states.
#ifndef VERIF_MC_HH
#define VERIF_MC_HH
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <cmath>
#include <exception>
#include <fstream>
#include <functional>
#include <map>
#include <regex>
#include <iostream>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>
#include <unistd.h>
#include <fcntl.h>

namespace mc {

struct Failed : std::exception { const char* what() const noexcept override { return "property violated"; } };

struct Run
{
  bool thorough=false;
  unsigned shard=0, shards=1;
  std::string only, out;
  unsigned long counter=0, states=0, transitions=0, checks=0, failures=0, traces=0;
  std::vector<std::pair<std::string,std::regex>> known;   // recorded findings: regular expressions on "key  message"
  std::map<std::string,unsigned long> knownHits;
  std::unordered_set<std::size_t> outcomes;
  std::vector<std::string> samples;
  std::string key;
  std::vector<std::pair<std::string,std::string>> failed;
  int crashFd=-1;
  unsigned stateTimeout=120;
};
inline Run& run() { static Run r; return r; }
inline char g_key[8192];
inline char g_op[4096];
inline char g_crash[4096];

inline bool thorough() { return run().thorough; }

inline void crash(const char* what)
{
  int fd = ::open(g_crash, O_WRONLY|O_CREAT|O_TRUNC, 0644);
  if (fd>=0) {
    [[maybe_unused]] auto r = ::write(fd,g_key,strlen(g_key)); r=::write(fd,"\n",1);
    r=::write(fd,what,strlen(what)); r=::write(fd," during ",8); r=::write(fd,g_op,strlen(g_op)); r=::write(fd,"\n",1);
    ::close(fd);
  }
}
inline void onSignal(int s)
{
  crash(s==SIGSEGV ? "segmentation fault" : s==SIGABRT ? "abort (assertion or sanitizer)" : s==SIGFPE ? "arithmetic trap" : s==SIGALRM ? "state does not terminate" : s==SIGILL ? "illegal instruction (trap)" : "bus error");
  ::_exit(3);
}
extern "C" inline void mc_asan_death() { crash("sanitizer report"); }

inline void init(int argc, char** argv)
{
  auto& r = run();
  for (int i=1;i<argc;++i) {
    std::string a=argv[i];
    if (a=="--tier") r.thorough = std::string(argv[++i])=="thorough";
    else if (a=="--shard") { r.shard=atoi(argv[i+1]); r.shards=atoi(argv[i+2]); i+=2; }
    else if (a=="--only") r.only=argv[++i];
    else if (a=="--out") r.out=argv[++i];
    else if (a=="--known") { std::ifstream f(argv[++i]); std::string l; while (std::getline(f,l)) if (!l.empty()) r.known.push_back({l,std::regex(l)}); }
    else if (a=="--state-timeout") r.stateTimeout=atoi(argv[++i]);
  }
  std::snprintf(g_crash,sizeof g_crash,"%s.crash",r.out.c_str());
  for (int s : {SIGSEGV,SIGABRT,SIGFPE,SIGALRM,SIGILL,SIGBUS}) std::signal(s,onSignal);
}

// note the operation being performed (for crash reports)
inline void op(const std::string& s) { std::strncpy(g_op,s.c_str(),sizeof g_op-1); }
inline void transition(unsigned long n=1) { run().transitions+=n; }

template<class T> std::string str(const T& t) { std::ostringstream o; o.precision(17); o<<t; return o.str(); }
template<class... T> std::string cat(const T&... t) { std::ostringstream o; o.precision(12); ((o<<t),...); return o.str(); }

inline void record(const std::string& key, const std::string& msg)
{
  auto& r=run();
  for (auto& [s,re] : r.known) if (std::regex_search(key+"__"+msg,re)) { ++r.knownHits[s]; return; }
  ++r.failures;
  if (r.failed.size()<8) r.failed.push_back({key,msg});
}
inline void fail(const std::string& msg)
{
  record(run().key,msg);
  throw Failed();
}
template<class M> void check(bool ok, M&& msg)
{
  ++run().checks;
  if (!ok) {
    if constexpr (std::is_invocable_v<M>) fail(msg()); else fail(std::string(msg));
  }
}
template<class A, class B, class M> void equal(const A& a, const B& b, M&& msg)
{
  check(a==b,[&]{ std::string m; if constexpr (std::is_invocable_v<M>) m=msg(); else m=std::string(msg); return cat(m,": got ",a,", expected ",b); });
}
template<class M> void close(double a, double b, double tol, M&& msg)
{
  // NaN never passes
  check(std::abs(a-b)<=tol*(1.0+std::abs(a)+std::abs(b)),[&]{ std::string m; if constexpr (std::is_invocable_v<M>) m=msg(); else m=std::string(msg); return cat(m,": got ",a,", expected ",b); });
}
inline void outcome(std::size_t h) { run().outcomes.insert(h); }
inline void combine(std::size_t& h, std::size_t v) { h ^= v + 0x9e3779b97f4a7c15ull + (h<<6) + (h>>2); }
inline void combine(std::size_t& h, double v) { combine(h,std::size_t(std::llround(v*1e6)+(1ll<<40))); }

// is any state whose key starts with this prefix selected in this run? (lets whole groups be skipped cheaply on replay)
inline bool group(const std::string& prefix)
{
  auto& r=run();
  return r.only.empty() || r.only.compare(0,prefix.size(),prefix)==0;
}

// one enumerated state/configuration/history; keys must be unique and deterministic
template<class F>
void state(const std::string& key, F&& f)
{
  auto& r=run();
  auto n = r.counter++;
  if (!r.only.empty()) { if (r.only!=key) return; }
  else if (n % r.shards != r.shard) return;
  if (r.failures>=8) return;
  r.key=key;
  std::strncpy(g_key,key.c_str(),sizeof g_key-1);
  op("-");
  ::alarm(r.stateTimeout);
  ++r.states;
  if (r.samples.size()<2 || (r.states%997==0 && r.samples.size()<6)) r.samples.push_back(key);
  auto before=r.checks;
  try { f(); if (r.checks>before) ++r.traces; }
  catch (const Failed&) {}
  catch (const std::exception& e) { record(key,cat("unexpected exception: ",e.what()," during ",g_op)); }
  catch (...) { record(key,cat("unexpected exception during ",g_op)); }
  ::alarm(0);
}

inline std::string esc(const std::string& s)
{
  std::string o;
  for (unsigned char c : s) { if (c=='"'||c=='\\') { o+='\\'; o+=c; } else if (c<32||c>126) { char b[8]; std::snprintf(b,8,"\\u%04x",c<127?c:'?'); o+=b; } else o+=c; }
  return o;
}

inline int finish()
{
  auto& r=run();
  std::ofstream o(r.out.empty() ? "/dev/stdout" : r.out);
  o<<"{\"states\":"<<r.states<<",\"enumerated\":"<<r.counter<<",\"transitions\":"<<r.transitions<<",\"checks\":"<<r.checks<<",\"outcomes\":"<<r.outcomes.size()<<",\"traces\":"<<r.traces<<",\"failures\":"<<r.failures<<",\"samples\":[";
  for (std::size_t i=0;i<r.samples.size();++i) o<<(i?",":"")<<'"'<<esc(r.samples[i])<<'"';
  o<<"],\"failed\":[";
  for (std::size_t i=0;i<r.failed.size();++i) o<<(i?",":"")<<"[\""<<esc(r.failed[i].first)<<"\",\""<<esc(r.failed[i].second)<<"\"]";
  o<<"],\"known\":[";
  { bool first=true; for (auto& [k,n] : r.knownHits) { o<<(first?"":",")<<"[\""<<esc(k)<<"\","<<n<<"]"; first=false; } }
  o<<"]}\n";
  o.flush();
  return 0;
}
} // namespace mc

#if defined(__SANITIZE_ADDRESS__)
extern "C" void __sanitizer_set_death_callback(void (*)(void));
#define MC_SANITIZER_INIT __sanitizer_set_death_callback(&mc::mc_asan_death)
#else
#define MC_SANITIZER_INIT (void)0
#endif
#define MC_MAIN(BODY) int main(int argc, char** argv) { mc::init(argc,argv); MC_SANITIZER_INIT; BODY; return mc::finish(); }
#endif
