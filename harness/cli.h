// cli.h - runs the real command line tools, one process per execution, with the working
// directory, output and resource limits under control.
#ifndef CLI_H_
#define CLI_H_
#include "mc.h"
#include <sys/stat.h>
#include <dirent.h>
#include <fstream>
namespace mc {
struct Cli {
  bool exited = false, timedout = false, flooded = false;
  int code = -1, sig = 0;
  double wall = 0;
  string out, err;
  bool ok() const { return exited && code == 0; }
  string status() const {
    if (timedout) return "no end within the time limit";
    if (flooded) return "endless output";
    if (exited) return fmt("exit %d", code);
    return fmt("killed by signal %d", sig);
  }
};
inline string binary(const string &name) {
  const char *r = getenv("MC_ROOT");
  if (!r) { fprintf(stderr, "MC_ROOT not set\n"); exit(2); }
  static std::map<string, string> memo;
  string &m = memo[name];
  if (m != "") return m;
  string d = string(r) + "/bin";
  DIR *dp = opendir(d.c_str());
  struct dirent *e;
  while ((e = readdir(dp))) {
    string p = d + "/" + e->d_name + "/" + name;
    if (e->d_name[0] != '.' && access(p.c_str(), X_OK) == 0) m = p;
  }
  closedir(dp);
  if (m == "") { fprintf(stderr, "no binary %s\n", name.c_str()); exit(2); }
  return m;
}
inline string slurpFd(int fd) {
  string s;
  char buf[65536];
  lseek(fd, 0, SEEK_SET);
  ssize_t n;
  while ((n = read(fd, buf, sizeof buf)) > 0) s.append(buf, n);
  return s;
}
inline bool slurp(const string &fn, string &s) {
  int fd = open(fn.c_str(), O_RDONLY | O_CLOEXEC);
  if (fd < 0) return false;
  s = slurpFd(fd);
  close(fd);
  return true;
}
inline void spit(const string &fn, const string &s) {
  int fd = open(fn.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, 0644);
  if (fd < 0 || write(fd, s.data(), s.size()) != (ssize_t)s.size()) { fprintf(stderr, "cannot write %s\n", fn.c_str()); abort(); }
  close(fd);
}
inline void wipe(const string &dir) {   // files of one flat (or one level deep) directory
  DIR *dp = opendir(dir.c_str());
  if (!dp) return;
  struct dirent *e;
  while ((e = readdir(dp))) {
    string n = e->d_name;
    if (n == "." || n == "..") continue;
    string p = dir + "/" + n;
    if (unlink(p.c_str()) && (errno == EISDIR || errno == EPERM)) { wipe(p); rmdir(p.c_str()); }
  }
  closedir(dp);
}
struct CliOpt {
  double limit = 10;
  string dir;                       // working directory
  vector<std::pair<string, string>> env;
  bool noAsLimit = false;
  std::function<void(pid_t)> during;  // runs in the parent while the child lives
};
inline Cli runCli(const string &exe, const vector<string> &args, const CliOpt &o = CliOpt()) {
  static int fo = -1, fe = -1;
  if (fo < 0) { fo = memfd_create("out", MFD_CLOEXEC); fe = memfd_create("err", MFD_CLOEXEC); }
  if (ftruncate(fo, 0) || ftruncate(fe, 0)) abort();
  lseek(fo, 0, SEEK_SET); lseek(fe, 0, SEEK_SET);
  vector<char *> av;
  av.push_back((char *)exe.c_str());
  for (auto &a : args) av.push_back((char *)a.c_str());
  av.push_back(NULL);
  fflush(NULL);
  double t0 = now();
  pid_t pid = fork();
  if (pid < 0) abort();
  if (pid == 0) {
    struct itimerval z = {{0, 0}, {0, 0}};
    setitimer(ITIMER_REAL, &z, NULL);
    setpgid(0, 0);
    for (int s = 1; s < 32; s++) signal(s, SIG_DFL);
    if (o.dir != "" && chdir(o.dir.c_str())) _exit(120);
    int n = open("/dev/null", O_RDONLY);
    dup2(n, 0);
    dup2(fo, 1); dup2(fe, 2);
    fcntl(1, F_SETFL, O_APPEND); fcntl(2, F_SETFL, O_APPEND);
    struct rlimit fs = {64ul << 20, 64ul << 20};       // endless output ends the run
    setrlimit(RLIMIT_FSIZE, &fs);
    struct rlimit cpu = {(rlim_t)o.limit * 2 + 2, (rlim_t)o.limit * 2 + 3};
    setrlimit(RLIMIT_CPU, &cpu);
    for (auto &e : o.env) setenv(e.first.c_str(), e.second.c_str(), 1);
    execv(exe.c_str(), &av[0]);
    _exit(121);
  }
  setpgid(pid, pid);
  if (o.during) o.during(pid);
  Cli r;
  int st = 0;
  double end = t0 + o.limit;
  int us = 50;
  for (;;) {
    pid_t w = waitpid(pid, &st, WNOHANG);
    if (w == pid) break;
    if (now() > end) { kill(-pid, SIGKILL); waitpid(pid, &st, 0); r.timedout = true; break; }
    usleep(us);
    if (us < 400) us += 25;
  }
  kill(-pid, SIGKILL);       // whatever it left running
  r.wall = now() - t0;
  if (WIFEXITED(st)) { r.exited = true; r.code = WEXITSTATUS(st); }
  else { r.sig = WTERMSIG(st); if (r.sig == SIGXFSZ) r.flooded = true; }
  r.out = slurpFd(fo); r.err = slurpFd(fe);
  return r;
}
inline string joinArgs(const vector<string> &a) {
  string s;
  for (auto &x : a) s += (x == "" || x.find_first_of(" \t#\"") != string::npos ? "'" + x + "' " : x + " ");
  return s;
}
}  // namespace mc
#endif
