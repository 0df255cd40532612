// Runs operations on the real Vector and VectorRange classes and records every result.
// usage: vectors OPS OUT     (OPS: "S id" starts a sequence; "op k a b d w hex q..." is an operation)
#include "Vector.h"
#include "VectorRange.h"
#include <csignal>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <map>
#include <sstream>
#include <string>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_map>
#include <vector>
using namespace Funge;

static const int VD = 6;
static std::string num(dim_t v){ return std::to_string(v); }
static std::string esc(const std::string& s){      // printable ASCII except the backslash as itself
	std::string o; char b[8];
	for(unsigned char c : s){
		if(c >= 32 && c < 127 && c != 92) o += c;
		else{ snprintf(b, sizeof b, "\\x%02X", c); o += b; }
	}
	return o;
}
static std::string json(const std::string& s){
	std::string o = "\"";
	for(char c : s){ if(c == '"' || c == '\\') o += '\\'; o += c; }
	return o + "\"";
}
static std::string text(const Vector& v){
	std::ostringstream s; s << v;
	return s.str() == "()" ? "(0)" : s.str();      // the zero vector has two forms
}
static Vector make(const std::vector<dim_t>& q){
	switch(q.size()){
		case 0: return Vector();
		case 1: return Vector{q[0]};
		case 2: return Vector{q[0], q[1]};
		case 3: return Vector{q[0], q[1], q[2]};
		case 4: return Vector{q[0], q[1], q[2], q[3]};
		case 5: return Vector{q[0], q[1], q[2], q[3], q[4]};
		default: return Vector{q[0], q[1], q[2], q[3], q[4], q[5]};
	}
}
static void list(Vector& v, const std::vector<dim_t>& q){
	switch(q.size()){
		case 0: v = Vector(); break;
		case 1: v = {q[0]}; break;
		case 2: v = {q[0], q[1]}; break;
		case 3: v = {q[0], q[1], q[2]}; break;
		case 4: v = {q[0], q[1], q[2], q[3]}; break;
		case 5: v = {q[0], q[1], q[2], q[3], q[4]}; break;
		default: v = {q[0], q[1], q[2], q[3], q[4], q[5]}; break;
	}
}

static void sequence(const std::vector<std::string>& ops, const std::string& id, std::ostream& out){
	Vector g[5];
	std::unordered_map<Vector, long, Vector::hash> table;
	std::map<Vector, long> sorted;
	const Vector zero;
	for(const std::string& line : ops){
		std::istringstream in(line);
		std::string op, hex, s, r;
		int k, a, b; size_t d; dim_t w;
		std::vector<dim_t> q;
		in >> op >> k >> a >> b >> d >> w >> hex;
		for(dim_t x; in >> x;) q.push_back(x);
		for(size_t i = 1; i + 1 < hex.size(); i += 2) s += (char)strtol(hex.substr(i, 2).c_str(), nullptr, 16);
		const Vector& A = g[a];
		const Vector& B = g[b];
		Vector& K = g[k];
		if(op == "make") K = make(q);
		else if(op == "list") list(K, q);
		else if(op == "copy"){ Vector c(A); K = c; }
		else if(op == "assign") K = A;
		else if(op == "get") r = num(d % 2 ? A.get(d) : A[d]);
		else if(op == "set") K.set(d, w);
		else if(op == "plus") K = A + B;
		else if(op == "minus") K = A - B;
		else if(op == "addto") g[k] += B;
		else if(op == "subfrom") g[k] -= B;
		else if(op == "reverse") K.reverse();
		else if(op == "left") K.left();
		else if(op == "right") K.right();
		else if(op == "cmp"){
			r = std::string() + (A < B ? "1" : "0") + (A <= B ? "1" : "0") + (A == B ? "1" : "0") + (A != B ? "1" : "0");
			// equal vectors must have equal hashes; of others the hash says nothing
			r += A == B ? (Vector::hash()(A) == Vector::hash()(B) ? "1" : "0") : "0";
		}
		else if(op == "print") r = text(A);
		else if(op == "parse"){
			std::istringstream is(s);
			is >> K;
			bool used = !is;
			is.clear();
			std::string rest((std::istreambuf_iterator<char>(is)), std::istreambuf_iterator<char>());
			r = esc(rest) + (used ? "1" : "0");
		}
		else if(op == "put"){ table[A] = w; sorted[A] = w; }
		else if(op == "find"){
			auto f = table.find(A);
			auto f2 = sorted.find(A);
			r = f == table.end() ? "none" : num(f->second);
			std::string r2 = f2 == sorted.end() ? "none" : num(f2->second);
			if(r != r2) r = "table " + r + " sorted " + r2;
		}
		else if(op == "erase"){
			size_t n = table.erase(A), n2 = sorted.erase(A);
			r = num(n);
			if(n != n2) r = "table " + r + " sorted " + num(n2);
		}
		else if(op == "keys"){
			for(auto& e : sorted) r += (r.empty() ? "" : " ") + text(e.first) + "=" + num(e.second);
		}
		else if(op == "range" || op == "rangepost"){
			VectorRange x(A, B);
			int n = 0;
			for(; *x != x.end() && n <= 400; ++n){
				r += (n ? " " : "");
				if(op == "range"){ r += text(*x); ++x; }
				else{ VectorRange old = x++; r += text(*old); }
			}
			r += "|" + text(x.begin()) + text(x.end());
		}
		else{ std::cerr << "what is " << op << "\n"; _exit(3); }
		out << "{\"op\":" << json(op) << ",\"k\":" << k << ",\"a\":" << a << ",\"b\":" << b << ",\"d\":" << d << ",\"w\":" << json(num(w))
		    << ",\"s\":" << json(esc(s)) << ",\"q\":[";
		for(size_t i = 0; i < q.size(); ++i) out << (i ? "," : "") << json(num(q[i]));
		out << "],\"r\":" << json(r) << ",\"g\":[";
		for(int i = 1; i <= 4; ++i){
			out << (i > 1 ? ",[" : "[");
			for(int c = 0; c < VD; ++c) out << (c ? "," : "") << json(num(g[i].get(c)));
			out << "]";
		}
		out << "]}" << std::endl;
	}
}

int main(int argc, char** argv){
	std::ifstream in(argv[1]);
	std::ofstream out(argv[2]);
	std::string line;
	std::vector<std::pair<std::string, std::vector<std::string>>> all;
	while(std::getline(in, line)){
		if(line.rfind("S ", 0) == 0) all.push_back({line.substr(2), {}});
		else all.back().second.push_back(line);
	}
	for(auto& [id, ops] : all){
		int fd[2];
		if(pipe(fd)) return 4;
		pid_t p = fork();
		if(p == 0){
			close(fd[0]);
			alarm(20);
			std::ostringstream o;
			struct Fd : std::streambuf {
				int fd; std::string b;
				int overflow(int c) override { b += (char)c; return c; }
				std::streamsize xsputn(const char* s, std::streamsize n) override { b.append(s, n); return n; }
				int sync() override { size_t i = 0; while(i < b.size()){ ssize_t k = write(fd, b.data() + i, b.size() - i); if(k <= 0) break; i += k; } b.clear(); return 0; }
			} buf;
			buf.fd = fd[1];
			std::ostream os(&buf);
			sequence(ops, id, os);
			os.flush();
			_exit(0);
		}
		close(fd[1]);
		std::string got; char b[65536];
		for(ssize_t k; (k = read(fd[0], b, sizeof b)) > 0;) got.append(b, k);
		close(fd[0]);
		int st; waitpid(p, &st, 0);
		while(!got.empty() && got.back() != '\n') got.pop_back();
		std::string ev;
		std::istringstream ls(got);
		for(std::string l; std::getline(ls, l);) ev += (ev.empty() ? "" : ",") + l;
		out << "{\"id\":" << json(id) << ",\"sig\":" << (WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st)) << ",\"ev\":[" << ev << "]}\n";
	}
	return 0;
}
