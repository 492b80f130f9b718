// F08: an error at every single file-system write of a set of write histories, once or for good. The write happens in a child process, the inspection in a clean one.
#include "iofault.h"
#include <hdf5.h>
#include <poll.h>
using namespace iof;
struct Out { bool finished = false; int status = 0, calls = 0, injected = 0; Result r; std::string how; };
static Out child(const History &h, const std::string &path, const std::vector<Layer> &fs, int at, int md) {
  int fd[2]; if (pipe(fd)) throw std::runtime_error("pipe"); fflush(0); pid_t pid = fork();
  if (!pid) { close(fd[0]); if (!getenv("F08_DEBUG")) for (int s : {SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL}) signal(s, SIG_DFL); alarm(20);
    calls = injected = 0; failAt = at; mode = md; target = path; Result r = perform(h, path, fs);
    auto send = [&](char tag) { int at0 = failAt; failAt = -1; std::string t = target; target.clear(); std::string s = VS() << tag << r.reported << "C" << calls << "I" << injected << "."; for (char k : r.ok) s += k ? '1' : '0'; syscall(SYS_write, fd[1], s.data(), s.size()); failAt = at0; target = t; };
    send('R'); H5close(); send('E');                        // what a normal exit does for the HDF5 library
    _exit(0); }
  close(fd[1]); std::string s; char b[256]; ssize_t n; while ((n = read(fd[0], b, sizeof b)) > 0) s.append(b, n); close(fd[0]); Out o; int st = 0; waitpid(pid, &st, 0); o.status = st;
  size_t e = s.find('E'); bool ended = e != s.npos && WIFEXITED(st) && WEXITSTATUS(st) == 0; bool got = false; std::string rec = ended ? s.substr(e + 1) : s.substr(0, e).substr(s.empty() ? 0 : 1);
  if (sscanf(rec.c_str(), "%dC%dI%d.", &o.status, &o.calls, &o.injected) == 3) { got = true; o.r.reported = o.status; rec = rec.substr(rec.find('.') + 1); for (char k : rec) o.r.ok.push_back(k == '1'); }
  // a process that dies in the HDF5 library's own clean-up, after Field3D has reported the error, is the library's doing (H5Fclose leaves the file half closed when it fails)
  if (got && (ended || o.r.reported)) o.finished = true;
  else o.how = WIFSIGNALED(st) ? (WTERMSIG(st) == SIGALRM ? std::string("the process hangs") : std::string(VS() << "the process dies of signal " << WTERMSIG(st))) : std::string(VS() << "the process exits with status " << WEXITSTATUS(st));
  return o;
}
static void body(Ctx &c, bool th) {
  static std::vector<History> hs = histories(th); static std::map<int, std::pair<int, std::vector<Layer> > > cache; int id = c.choose(hs.size()); const History &h = hs[id];
  if (!cache.count(id)) { auto fs = fieldsOf(h); TmpFile f(c, "cnt"); Out o = child(h, f.p, fs, -1, 0); if (!o.finished || o.r.reported) c.fail2("a file cannot be written", h.name + " " + o.how); cache[id] = std::make_pair(o.calls, fs); }
  auto &fs = cache[id].second; int at = c.choose(cache[id].first), md = c.choose(MODES); if (!th && (md == ONCE_IO || md >= SHORT_LEGAL) && at % 3 != md % 3) c.prune(); TmpFile f(c, "err"); c.step(); c.log(VS() << h.name << ": " << modeName[md] << " at call " << at << " of " << cache[id].first);
  Out o = child(h, f.p, fs, at, md); std::string fmt = h.ogawa ? "Ogawa: " : "HDF5: ", ctx = VS() << h.name << ", " << modeName[md] << " at call " << at << " of " << cache[id].first;
  VPCHECK(c, o.finished, fmt + o.how + " after a write error", ctx);
  Seen s = inspect(f.p, fs, h.globalMeta); c.outcome(VS() << h.ogawa << md << o.r.reported << s.opened << s.layers << s.meta); c.state(vp::mix(vp::mix(vp::hashStr(h.name), at), md));
  VPCHECK(c, s.bad.empty(), fmt + "after a write error " + s.bad, ctx + " " + s.detail);
  if (!o.r.reported) VPCHECK(c, s.opened && s.layers == (int)fs.size() && (!h.globalMeta || s.meta), fmt + "a write error is not reported and the file is incomplete", VS() << ctx << ": opens " << s.opened << " layers " << s.layers << " of " << fs.size());
  if (o.injected && (md == SHORT_LEGAL || md == EINTR_LEGAL)) c.outcome(VS() << "legal " << h.ogawa << o.r.reported);
}
void vp::registerScenarios(bool th) { quietInit(); vp::scenario("write errors", [=](Ctx &c) { body(c, th); }, vp::opt(false, 2, 60000)); }
