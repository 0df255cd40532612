/*
 * Tick recorder and batch runner for the real Funge++ interpreter.
 *
 * Linked together with every translation unit of /repo/src (Funge.cpp compiled with -Dmain=funge_main) and
 *   --wrap=FungeRunner::tick() --wrap=FungeUniverse::wait() const --wrap=time
 * so that each instruction executed by the interpreter is observed, through public interfaces only, without any
 * change in /repo.  Usage:  funget BATCH OUT SCRATCH  runs each scenario of BATCH in a forked child and writes one
 * JSON object per scenario.
 */
#include <chrono>
#include "Field.h"
#include "FungeConfig.h"
#include "FungeMultiverse.h"
#include "FungeRunner.h"
#include "FungeUniverse.h"
#include "InstructionPointer.h"
#include "StackStack.h"
#include <algorithm>
#include <atomic>
#include <cstdarg>
#include <cstring>
#include <dirent.h>
#include <fcntl.h>
#include <fstream>
#include <grp.h>
#include <malloc.h>
#include <map>
#include <poll.h>
#include <pthread.h>
#include <set>
#include <signal.h>
#include <sstream>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

int funge_main(int argc, char** argv, char** envp);
#ifdef FUNGET_SCHED
void schedStart(uint64_t seed);       // sched.cpp
void schedFlag(volatile bool* flag);
#endif
extern "C" char** environ;

using namespace Funge;

namespace {

int traceFd = -1;
size_t VD = 3;
long maxTicks = 1000;
long ticks = 0;
std::atomic<bool> recording{false};
std::atomic<bool> barrier{false};
std::atomic<bool> booted{false};
volatile bool mainWaits = false;
const time_t FIXED_TIME = 1700000000; // 2023-11-14 22:13:20 UTC
const size_t SCAN_LIMIT = 500;          // cells looked at after each turn (more: only those reported as stored)
const size_t SLOW_SCAN_LIMIT = 20000;  // and after every 60th turn
const size_t FIRST_SCAN_LIMIT = 300000; // when a universe appears

std::recursive_mutex tickMutex;
// the clock stands still during a turn
const long FIRST_TIME = 1700000000ll * 1000000000ll;
long timeNow = FIRST_TIME;
thread_local long turnTime = FIRST_TIME;
thread_local int held = 0;
thread_local FungeRunner* current = nullptr;

std::string* buf = nullptr;     // JSON of the trace so far
std::string* pending = nullptr; // output since the last event

std::string escapeBytes(const std::string& s){
	static const char* H = "0123456789ABCDEF";
	std::string r;
	for(unsigned char c : s){
		if(c >= 32 && c < 127 && c != '\\'){
			if(c == '"'){ r += "\\\""; }else{ r += static_cast<char>(c); }
		}else{
			r += "\\\\x"; r += H[c >> 4]; r += H[c & 15];
		}
	}
	return r;
}

// Tee for std::cout: keeps what each tick printed and passes it to stdout.
class Tee : public std::streambuf {
	protected:
		int overflow(int c) override {
			if(c != EOF){
				std::lock_guard<std::recursive_mutex> g(tickMutex);
				pending->push_back(static_cast<char>(c));
				putc(c, stdout);
			}
			return c;
		}
		std::streamsize xsputn(const char* s, std::streamsize n) override {
			std::lock_guard<std::recursive_mutex> g(tickMutex);
			pending->append(s, n);
			fwrite(s, 1, n, stdout);
			return n;
		}
		int sync() override {
			fflush(stdout);
			return 0;
		}
};

struct UniState {
	FungeUniverse* uni;
	std::map<std::vector<dim_t>, inst_t> shadow;
	std::set<std::vector<dim_t>> touched;
	size_t index;
};
std::map<const FungeUniverse*, UniState>* states = nullptr;

std::vector<dim_t> coords(const Vector& v){
	std::vector<dim_t> r(VD, 0);
	for(size_t i = 0; i < VD; ++i){
		r[i] = v.get(i);
	}
	return r;
}

Vector fromCoords(const std::vector<dim_t>& c){
	Vector v;
	for(size_t i = 0; i < c.size(); ++i){
		v.set(i, c[i]);
	}
	return v;
}

void jnum(std::string& o, int64_t n){
	o += '"'; o += std::to_string(n); o += '"';
}

void jvec(std::string& o, const std::vector<dim_t>& c){
	o += '[';
	for(size_t i = 0; i < c.size(); ++i){
		if(i){ o += ','; }
		jnum(o, c[i]);
	}
	o += ']';
}

// Number of cells in the bounds, or 0 if more than limit.
size_t hullSize(const Field& f, size_t limit){
	size_t n = 1;
	for(size_t d = 0; d < VD; ++d){
		dim_t lo = f.min(d), hi = f.max(d);
		if(hi < lo){
			return 1;
		}
		unsigned __int128 w = static_cast<unsigned __int128>(static_cast<__int128>(hi) - lo + 1);
		if(w > limit){
			return 0;
		}
		n *= static_cast<size_t>(w);
		if(n > limit){
			return 0;
		}
	}
	return n;
}

template<typename F> void scanHull(const Field& f, F fn){
	for(size_t d = 0; d < VD; ++d){
		if(f.max(d) < f.min(d)){
			return;
		}
	}
	std::vector<dim_t> c(VD);
	for(size_t d = 0; d < VD; ++d){
		c[d] = f.min(d);
	}
	for(;;){
		fn(c, f.get(fromCoords(c)));
		size_t d = 0;
		while(d < VD){
			if(++c[d] <= f.max(d)){
				break;
			}
			c[d] = f.min(d);
			++d;
		}
		if(d == VD){
			break;
		}
	}
}

// Collect differences between the field and its shadow as JSON [[pos,value],...]
void diff(UniState& st, std::string& o, bool& any, size_t limit){
	const Field& f = st.uni->getField();
	std::map<std::vector<dim_t>, inst_t> changed;
	auto look = [&](const std::vector<dim_t>& c, inst_t v){
		auto it = st.shadow.find(c);
		inst_t old = (it == st.shadow.end()) ? ' ' : it->second;
		if(old != v){
			changed[c] = v;
		}
	};
	if(hullSize(f, limit) > 0){
		scanHull(f, look);
		// cells known earlier that are outside of the bounds now
		for(auto& s : st.shadow){
			look(s.first, f.get(fromCoords(s.first)));
		}
	}
	for(auto& c : st.touched){
		look(c, f.get(fromCoords(c)));
	}
	st.touched.clear();
	any = !changed.empty();
	o += '[';
	bool first = true;
	for(auto& c : changed){
		st.shadow[c.first] = c.second;
		if(!first){ o += ','; }
		first = false;
		o += '[';
		jvec(o, c.first);
		o += ',';
		jnum(o, c.second);
		o += ']';
	}
	o += ']';
}

void emit(const std::string& s){
	// one line per event, straight to the file: survives any way of dying
	std::string l = s + "\n";
	size_t off = 0;
	while(off < l.size()){
		ssize_t n = write(traceFd, l.data() + off, l.size() - off);
		if(n <= 0){
			_exit(99);
		}
		off += n;
	}
}

void jstr(std::string& o, const char* key, const std::string& v){
	o += '"'; o += key; o += "\":\""; o += escapeBytes(v); o += '"';
}

void bounds(std::string& o, const Field& f){
	o += "\"n\":[";
	for(size_t d = 0; d < VD; ++d){
		if(d){ o += ','; }
		jnum(o, f.min(d));
	}
	o += "],\"m\":[";
	for(size_t d = 0; d < VD; ++d){
		if(d){ o += ','; }
		jnum(o, f.max(d));
	}
	o += ']';
}

// Registers new universes: emits an "init" event with the loaded space.
void discover(bool announce){
	auto& multi = FungeMultiverse::getInstance();
	for(auto it = multi.cbegin(); it != multi.cend(); ++it){
		FungeUniverse* u = it->second;
		if(states->contains(u)){
			continue;
		}
		UniState& st = (*states)[u];
		st.uni = u;
		st.index = states->size();
		std::string cells;
		bool any;
		diff(st, cells, any, FIRST_SCAN_LIMIT);
		if(announce){
			std::string o = "{\"t\":\"u\",";
			jstr(o, "u", u->getName());
			o += ",\"c\":" + cells + ",";
			bounds(o, u->getField());
			o += ",\"dim\":" + std::to_string(u->dimensions());
			o += "}";
			emit(o);
		}
		UniState* ps = &st;
		u->getField().addObserver([ps](const Vector& v, inst_t){
			std::lock_guard<std::recursive_mutex> g(tickMutex);
			ps->touched.insert(coords(v));
		});
	}
}

void event(FungeRunner* r, FungeUniverse* ran, size_t id){
	std::string o = "{\"t\":\"i\",\"i\":";
	jnum(o, id);
	o += ',';
	jstr(o, "u", ran->getName());
	o += ",\"c\":"; jnum(o, turnTime);
	const InstructionPointer& ip = const_cast<const FungeRunner*>(r)->getIP();
	o += ",\"p\":"; jvec(o, coords(ip.getPos()));
	o += ",\"d\":"; jvec(o, coords(ip.getDelta()));
	o += ",\"s\":"; jvec(o, coords(ip.getStorage()));
	o += ",\"x\":"; o += ip.isStopped() ? "true" : "false";
	StackStack& ss = r->getStack();
	size_t sel = 0;
	o += ",\"k\":[";
	bool queue = r->getUniverse().isMode(FUNGE_MODE_QUEUE);
	for(size_t j = ss.size(); j > 0; --j){
		const Stack& s = ss.at(j-1);
		if(&s == &ss.top()){
			sel = j-1;
		}
		if(j != ss.size()){ o += ','; }
		o += '[';
		size_t n = s.size();
		for(size_t i = n; i > 0; --i){
			if(i != n){ o += ','; }
			// physical order, front to back
			jnum(o, s.get(queue ? n-i+1 : i));
		}
		o += ']';
	}
	o += "],\"e\":" + std::to_string(sel);
	o += ",\"g\":" + std::to_string(static_cast<unsigned>(r->getMode()));
	o += ',';
	jstr(o, "v", r->getUniverse().getName());
	o += ",\"w\":{";
	bool first = true;
	for(auto& s : *states){
		std::string d;
		bool any;
		if(states->size() > 8 && s.second.uni != ran && s.second.uni != &r->getUniverse() && s.second.touched.empty() && ticks % 60 != 0){
			continue;
		}
		diff(s.second, d, any, (ticks % 60 == 0) ? SLOW_SCAN_LIMIT : SCAN_LIMIT);
		if(any){
			if(!first){ o += ','; }
			first = false;
			o += '"' + escapeBytes(s.second.uni->getName()) + "\":" + d;
		}
	}
	o += "},";
	bounds(o, ran->getField());
	o += ",\"dim\":" + std::to_string(ran->dimensions()) + ",";
	jstr(o, "o", *pending);
	pending->clear();
	o += "}";
	emit(o);
}

} // namespace

// the clocks of the C++ library, as the interpreter sees them
std::chrono::steady_clock::time_point std::chrono::_V2::steady_clock::now() noexcept {
	return time_point(duration(turnTime));
}
std::chrono::system_clock::time_point std::chrono::_V2::system_clock::now() noexcept {
	return time_point(std::chrono::nanoseconds(turnTime));
}

#ifdef FUNGET_ASAN
extern "C" const char* __asan_default_options(){
	return "detect_leaks=0:abort_on_error=1:hard_rss_limit_mb=3000:quarantine_size_mb=16:malloc_context_size=8";
}
#endif

extern "C" {

void __real__ZN5Funge11FungeRunner4tickEv(FungeRunner* r);
void __real__ZNK5Funge13FungeUniverse4waitEv(const FungeUniverse* u);

void __wrap__ZN5Funge11FungeRunner4tickEv(FungeRunner* r){
	if(!recording){
		__real__ZN5Funge11FungeRunner4tickEv(r);
		return;
	}
#ifdef FUNGET_SCHED
	if(barrier){
		schedFlag(&mainWaits);
		barrier = false;
	}
#endif
	if(barrier){
		// several universes: no turn until the main thread has created them all and waits for them
		for(int i = 0; i < 1000 && !booted; ++i){
			usleep(1000);
		}
		barrier = false;
	}
	tickMutex.lock();
	if(!recording){
		// the process is ending: universes are being taken down
		tickMutex.unlock();
		__real__ZN5Funge11FungeRunner4tickEv(r);
		return;
	}
	++held;
	discover(true);
	static bool registered = false;
	if(!registered){
		// runs before the destructors of everything that exists now
		registered = true;
		atexit([](){
			std::lock_guard<std::recursive_mutex> g(tickMutex);
			recording = false;
		});
	}
	FungeUniverse* ran = &r->getUniverse();
	size_t id = r->getID();
	if(ticks >= maxTicks){
		emit("{\"t\":\"l\"}");
		fflush(stdout);
		_exit(98);
	}
	++ticks;
	current = r;
	timeNow += 23456789;
	turnTime = timeNow;
	__real__ZN5Funge11FungeRunner4tickEv(r);
	if(recording){ // (it may have ended while this tick waited for another universe)
		discover(true);
		event(r, ran, id);
	}
	--held;
	tickMutex.unlock();
}

// A tick that waits for another universe (Funge-lib fingerprints) lets the others run.
void __wrap__ZNK5Funge13FungeUniverse4waitEv(const FungeUniverse* u){
	int h = held;
	if(h == 0){
		booted = true;
		mainWaits = true;
	}
	if(h > 0){
		std::string o = "{\"t\":\"w\",";
		jstr(o, "u", u->getName());
		o += ",\"i\":";
		jnum(o, current->getID());
		o += ",\"c\":"; jnum(o, turnTime);
		o += ',';
		jstr(o, "o", *pending);
		pending->clear();
		o += "}";
		emit(o);
	}
	for(int i = 0; i < h; ++i){
		tickMutex.unlock();
	}
	__real__ZNK5Funge13FungeUniverse4waitEv(u);
	for(int i = 0; i < h; ++i){
		tickMutex.lock();
	}
}

time_t __wrap_time(time_t* t){
	if(t != nullptr){
		*t = FIXED_TIME;
	}
	return FIXED_TIME;
}

}

/* ------------------------------------------------------------------ batch runner */

namespace {

struct Scenario {
	std::string id;
	std::vector<std::string> args;
	std::vector<std::string> env;
	std::vector<std::pair<std::string,std::string>> files;
	std::string in;
	bool closedStdin = false;
	bool rec = true;
	long ticks = 400;
	long vd = 3;
	long ms = 4000;
	unsigned long sched = 0;
};

std::string unhex(const std::string& h){
	std::string r;
	for(size_t i = 0; i + 1 < h.size(); i += 2){
		r.push_back(static_cast<char>(std::stoi(h.substr(i, 2), nullptr, 16)));
	}
	return r;
}

std::string slurp(int fd, size_t limit = 1 << 22){
	std::string r;
	lseek(fd, 0, SEEK_SET);
	char b[65536];
	ssize_t n;
	while((n = read(fd, b, sizeof b)) > 0 && r.size() < limit){
		r.append(b, n);
	}
	return r;
}

void listFiles(const std::string& root, const std::string& rel, std::string& o, bool& first, bool rm){
	std::string dir = rel.empty() ? root : root + "/" + rel;
	DIR* d = opendir(dir.c_str());
	if(d == nullptr){
		return;
	}
	std::vector<std::string> names;
	while(dirent* e = readdir(d)){
		std::string n = e->d_name;
		if(n != "." && n != ".."){
			names.push_back(n);
		}
	}
	closedir(d);
	std::sort(names.begin(), names.end());
	for(auto& n : names){
		std::string r = rel.empty() ? n : rel + "/" + n;
		std::string p = root + "/" + r;
		struct stat st;
		if(lstat(p.c_str(), &st) != 0){
			continue;
		}
		if(!rm){
			if(!first){ o += ','; }
			first = false;
		}
		if(S_ISDIR(st.st_mode)){
			if(!rm){
				o += '"' + escapeBytes(r + "/") + "\":\"\"";
			}
			listFiles(root, r, o, first, rm);
			if(rm){
				rmdir(p.c_str());
			}
		}else{
			if(!rm){
				int fd = open(p.c_str(), O_RDONLY);
				std::string c = fd >= 0 ? slurp(fd) : "";
				if(fd >= 0){ close(fd); }
				o += '"' + escapeBytes(r) + "\":\"" + escapeBytes(c) + '"';
			}else{
				unlink(p.c_str());
			}
		}
	}
}

void runChild(const Scenario& s, const std::string& dir, int in, int out, int err, int trace){
	prctl(PR_SET_PDEATHSIG, SIGKILL);
	setpgid(0, 0);
	if(chdir(dir.c_str()) != 0){ _exit(97); }
	dup2(in, 0);
	dup2(out, 1);
	dup2(err, 2);
	struct rlimit rl;
	rl.rlim_cur = rl.rlim_max = 8u << 20;
	setrlimit(RLIMIT_FSIZE, &rl);
	rl.rlim_cur = rl.rlim_max = 0;
	setrlimit(RLIMIT_CORE, &rl);
#ifndef FUNGET_ASAN
	rl.rlim_cur = rl.rlim_max = 3ul << 30;
	setrlimit(RLIMIT_AS, &rl);
#endif
	// programs may make hundreds of threads
	mallopt(M_ARENA_MAX, 2);
	pthread_attr_t attr;
	pthread_attr_init(&attr);
	pthread_attr_setstacksize(&attr, 1 << 20);
	pthread_setattr_default_np(&attr);
	if(getuid() == 0){
		if(setgroups(0, nullptr) != 0 || setgid(65534) != 0 || setuid(65534) != 0){ _exit(97); }
	}
	for(int fd = 3; fd < 64; ++fd){
		if(fd != trace){
			close(fd);
		}
	}
	traceFd = trace;
	recording = s.rec;
	barrier = false;
	for(auto& a : s.args){
		if(a.size() > 4 && a.compare(a.size() - 4, 4, ".fmv") == 0){
			barrier = true;
		}
	}
	maxTicks = s.ticks;
	VD = s.vd;
	setenv("TZ", "UTC", 1);
	std::vector<char*> argv, envp;
	argv.push_back(strdup("funge"));
	for(auto& a : s.args){ argv.push_back(strdup(a.c_str())); }
	argv.push_back(nullptr);
	for(auto& e : s.env){ envp.push_back(strdup(e.c_str())); }
	envp.push_back(nullptr);
	pending = new std::string();
	states = new std::map<const FungeUniverse*, UniState>();
	if(recording){
		// (for unrecorded runs the real standard streams are left alone)
		std::cout.rdbuf(new Tee());
	}
#ifdef FUNGET_SCHED
	schedStart(s.sched);
#endif
	exit(funge_main(argv.size() - 1, argv.data(), envp.data()));
}

void runScenario(const Scenario& s, const std::string& dir, std::string& o){
	mkdir(dir.c_str(), 0777);
	chmod(dir.c_str(), 0777);
	for(auto& f : s.files){
		std::string p = dir + "/" + f.first;
		if(p.back() == '/'){
			mkdir(p.c_str(), 0777);
			chmod(p.c_str(), 0777);
			continue;
		}
		int fd = open(p.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0666);
		fchmod(fd, 0666);
		if(fd < 0 || write(fd, f.second.data(), f.second.size()) < 0){
			fprintf(stderr, "cannot write %s\n", p.c_str());
			exit(2);
		}
		close(fd);
	}
	int in = memfd_create("in", 0), out = memfd_create("out", 0), err = memfd_create("err", 0), tr = memfd_create("trace", 0);
	fcntl(out, F_SETFL, O_APPEND);
	fcntl(err, F_SETFL, O_APPEND);
	if(write(in, s.in.data(), s.in.size()) < 0){ exit(2); }
	lseek(in, 0, SEEK_SET);
	pid_t pid = fork();
	if(pid == 0){
		runChild(s, dir, in, out, err, tr);
		_exit(96);
	}
	int status = 0;
	bool timeout = false;
	struct timespec t0, t1;
	clock_gettime(CLOCK_MONOTONIC, &t0);
	long wait_us = 150;
	for(;;){
		pid_t w = waitpid(pid, &status, WNOHANG);
		if(w == pid){
			break;
		}
		clock_gettime(CLOCK_MONOTONIC, &t1);
		long ms = (t1.tv_sec - t0.tv_sec) * 1000 + (t1.tv_nsec - t0.tv_nsec) / 1000000;
		long cpu = 0;
		clockid_t cc;
		struct timespec ct;
		if(clock_getcpuclockid(pid, &cc) == 0 && clock_gettime(cc, &ct) == 0){
			cpu = ct.tv_sec * 1000 + ct.tv_nsec / 1000000;
		}
		if(ms > s.ms || cpu > s.ms / 4){
			timeout = true;
			kill(-pid, SIGKILL);
			kill(pid, SIGKILL);
			waitpid(pid, &status, 0);
			break;
		}
		usleep(wait_us);
		if(wait_us < 3000){
			wait_us += wait_us / 4;
		}
	}
	kill(-pid, SIGKILL);
#ifdef FUNGET_SCHED
	if(s.sched != 0 && WIFEXITED(status) && WEXITSTATUS(status) == 95){
		timeout = true;  // deadlock
	}
#endif
	o = "{\"id\":\"" + s.id + "\",\"exit\":";
	o += std::to_string(!timeout && WIFEXITED(status) ? WEXITSTATUS(status) : -1);
	o += ",\"sig\":" + std::to_string(!timeout && WIFSIGNALED(status) ? WTERMSIG(status) : 0);
	o += std::string(",\"timeout\":") + (timeout ? "true" : "false") + ",";
	jstr(o, "out", slurp(out));
	o += ',';
	jstr(o, "err", slurp(err));
	o += ",\"files\":{";
	bool first = true;
	listFiles(dir, "", o, first, false);
	o += "},\"ev\":[";
	std::string t = slurp(tr, 1 << 26);
	if(!t.empty() && t.back() != '\n'){
		// a child killed in the middle of a write
		size_t p = t.rfind('\n');
		t.resize(p == std::string::npos ? 0 : p + 1);
	}
	if(!t.empty()){
		t.pop_back();
	}
	for(char& c : t){
		if(c == '\n'){ c = ','; }
	}
	o += t + "]}\n";
	close(in); close(out); close(err); close(tr);
	std::string dummy;
	listFiles(dir, "", dummy, first, true);
	rmdir(dir.c_str());
}

} // namespace

int main(int argc, char** argv){
	if(argc < 4){
		fprintf(stderr, "usage: funget BATCH OUT SCRATCH\n");
		return 2;
	}
	signal(SIGPIPE, SIG_IGN);
	umask(0);
	std::ifstream batch(argv[1]);
	int ofd = open(argv[2], O_CREAT | O_WRONLY | O_TRUNC, 0644);
	std::string scratch = argv[3];
	mkdir(scratch.c_str(), 0777);
	chmod(scratch.c_str(), 0777);
	std::string line;
	Scenario s;
	while(std::getline(batch, line)){
		std::istringstream is(line);
		std::string key, a, b;
		is >> key >> a >> b;
		if(key == "S"){ s = Scenario(); s.id = a; }
		else if(key == "A"){ s.args.push_back(unhex(a)); }
		else if(key == "E"){ s.env.push_back(unhex(a)); }
		else if(key == "F"){ s.files.push_back({unhex(a), unhex(b)}); }
		else if(key == "I"){ s.in = unhex(a); }
		else if(key == "T"){ s.ticks = std::stol(a); }
		else if(key == "V"){ s.vd = std::stol(a); }
		else if(key == "M"){ s.ms = std::stol(a); }
		else if(key == "Z"){ s.sched = std::stoul(a); }
		else if(key == "R"){ s.rec = a == "1"; }
		else if(key == "X"){
			std::string o;
			runScenario(s, scratch + "/" + s.id, o);
			if(write(ofd, o.data(), o.size()) != static_cast<ssize_t>(o.size())){ return 2; }
		}
	}
	return 0;
}
