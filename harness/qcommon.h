// Shared by the conformance drivers: charges, block tensors <-> JSON, and a
// runner which executes every script in a child process.
#pragma once
#include "blockTensor/btensor.h"
#include <torch/torch.h>
#include <nlohmann/json.hpp>
#include <csignal>
#include <cstdio>
#include <fstream>
#include <functional>
#include <iostream>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

using json = nlohmann::json;
using quantit::any_quantity;
using quantit::any_quantity_cref;
using quantit::btensor;
using quantit::conserved::C;
using quantit::conserved::Z;
using ivec = std::vector<int64_t>;

struct Sig
{
	ivec mod;
	std::function<any_quantity(const ivec &)> make;
};
inline Sig make_sig(const ivec &m)
{
	Sig s;
	s.mod = m;
	auto i16 = [](int64_t x) { return static_cast<int16_t>(x); };
	if (m == ivec{0}) s.make = [=](const ivec &q) { return any_quantity(Z(i16(q[0]))); };
	else if (m == ivec{2}) s.make = [=](const ivec &q) { return any_quantity(C<2>(i16(q[0]))); };
	else if (m == ivec{3}) s.make = [=](const ivec &q) { return any_quantity(C<3>(i16(q[0]))); };
	else if (m == ivec{5}) s.make = [=](const ivec &q) { return any_quantity(C<5>(i16(q[0]))); };
	else if (m == ivec{0, 0}) s.make = [=](const ivec &q) { return any_quantity(Z(i16(q[0])), Z(i16(q[1]))); };
	else if (m == ivec{2, 0}) s.make = [=](const ivec &q) { return any_quantity(C<2>(i16(q[0])), Z(i16(q[1]))); };
	else if (m == ivec{3, 0}) s.make = [=](const ivec &q) { return any_quantity(C<3>(i16(q[0])), Z(i16(q[1]))); };
	else throw std::logic_error("unknown charge signature");
	return s;
}
// the integers of a charge, read from its printed form "[Z(1),C<2>(0)]"
inline ivec read_charge(any_quantity_cref q)
{
	std::string t = to_string(q);
	ivec out;
	for (size_t i = 0; i < t.size(); ++i)
		if (t[i] == '(') out.push_back(std::strtol(t.c_str() + i + 1, nullptr, 10));
	return out;
}
inline btensor::vec_list_t dims_of(const Sig &sg, const json &d)
{
	btensor::vec_list_t out;
	for (auto &dim : d)
	{
		out.emplace_back();
		for (auto &sec : dim) out.back().emplace_back(sec[0].get<size_t>(), sg.make(sec[1].get<ivec>()));
	}
	return out;
}
inline ivec shape_of(const json &d)
{
	ivec out;
	for (auto &dim : d)
	{
		int64_t n = 0;
		for (auto &s : dim) n += s[0].get<int64_t>();
		out.push_back(n);
	}
	return out;
}
inline torch::Tensor dense_from(const json &v, const json &w, const ivec &shape)
{
	auto mk = [&](const json &x)
	{
		auto vec = x.get<std::vector<double>>();
		auto t = torch::empty({static_cast<int64_t>(vec.size())}, torch::kDouble);
		std::copy(vec.begin(), vec.end(), t.data_ptr<double>());
		return t.reshape(shape);
	};
	auto re = mk(v);
	if (w.is_array() && !w.empty()) return torch::complex(re, mk(w));
	return re;
}
// same values, other memory layout
inline torch::Tensor relayout(const torch::Tensor &t)
{
	if (t.dim() < 2) return t.clone();
	ivec p;
	for (int64_t i = t.dim(); i-- > 0;) p.push_back(i);
	return t.permute(p).contiguous().permute(p);
}
inline torch::Tensor block_slice(const torch::Tensor &dense, const json &d, const ivec &b)
{
	auto out = dense;
	for (size_t i = 0; i < b.size(); ++i)
	{
		int64_t start = 0;
		for (int64_t k = 0; k < b[i]; ++k) start += d[i][k][0].get<int64_t>();
		out = out.narrow(i, start, d[i][b[i]][0].get<int64_t>());
	}
	return out;
}
// block tensor described by a JSON record {d,s,v,w,bl,t}
inline btensor build_tensor(const Sig &sg, const json &o, int form)
{
	auto opt = torch::TensorOptions().dtype(o["t"] == "c" ? torch::kComplexDouble : o["t"] == "f" ? torch::kFloat : torch::kDouble);
	auto vl = dims_of(sg, o["d"]);
	auto sel = sg.make(o["s"].get<ivec>());
	auto dense = dense_from(o["v"], o["w"], shape_of(o["d"]));
	if (o["t"] == "c") dense = dense.to(torch::kComplexDouble);
	if (o["t"] == "f") dense = dense.to(torch::kFloat);
	btensor out = form == 3 ? btensor(vl, sel, o["bl"].size(), opt) : btensor(vl, sel, opt);
	auto bl = o["bl"].get<std::vector<ivec>>();
	if (form == 2) std::reverse(bl.begin(), bl.end());
	for (auto &b : bl)
	{
		auto blk = block_slice(dense, o["d"], b);
		out.block(b) = form == 1 ? relayout(blk) : blk.clone().contiguous();
	}
	return out;
}
inline bool to_int(double x, int64_t &out)
{
	if (!(std::abs(x) < 1e8)) { out = 99999999; return false; }
	out = static_cast<int64_t>(std::llround(x));
	return std::abs(x - static_cast<double>(out)) < 1e-6;
}
inline bool same_values(const torch::Tensor &a, const torch::Tensor &b) // NaN equals NaN
{
	return (a.eq(b) | (a.isnan() & b.isnan())).all().item<bool>();
}
// projection of a block tensor on the abstract state of the specification
inline json dump_tensor(const btensor &t)
{
	json out;
	bool ck = true;
	std::string why;
	json d = json::array();
	size_t off = 0;
	ivec shape;
	for (int64_t i = 0; i < t.dim(); ++i)
	{
		json dim = json::array();
		int64_t n = 0;
		for (size_t k = 0; k < t.section_number(i); ++k)
		{
			auto sz = t.section_size(i, k);
			dim.push_back(json::array({sz, read_charge(t.section_conserved_qtt(i, k))}));
			n += sz;
		}
		d.push_back(dim);
		shape.push_back(n);
	}
	if (t.sizes() != shape) { ck = false; why += "1 "; }
	out["d"] = d;
	out["s"] = read_charge(static_cast<any_quantity_cref>(t.selection_rule));
	json b = json::array();
	auto ty = torch::typeMetaToScalarType(t.options().dtype());
	bool first = true;
	for (auto &x : t.blocks())
	{
		if (first) ty = std::get<1>(x).scalar_type();
		first = false;
		if (std::get<1>(x).scalar_type() != ty) { ck = false; why += "2 "; }
		b.push_back(std::get<0>(x));
	}
	if (torch::typeMetaToScalarType(t.options().dtype()) != ty) { ck = false; why += "20 "; }
	// every accessor tells the same story about the section tables
	if (ck)
	{
		size_t allowed = 0, total = 1;
		ivec cnt;
		for (int64_t i = 0; i < t.dim(); ++i)
		{
			auto [sb, se] = t.section_sizes(i);
			auto [qb, qe] = t.section_cqtts(i);
			auto [sb2, se2, qb2, qe2] = t.section_sizes_cqtts(i);
			auto [rb, re] = t.section_conserved_qtt_range(i);
			const int64_t n = d[i].size();
			bool ok = se - sb == n && qe - qb == n && se2 - sb2 == n && qe2 - qb2 == n && re - rb == n;
			for (int64_t k = 0, el = 0; ok && k < n; ++k)
			{
				auto [z, q] = t.section_size_cqtt(i, k);
				const auto &want = t.section_conserved_qtt(i, k);
				ok = *(sb + k) == d[i][k][0] && *(sb2 + k) == d[i][k][0] && int64_t(z) == d[i][k][0] && q == want &&
				     *(qb + k) == want && *(qb2 + k) == want && *(rb + k) == want;
				for (int64_t x = 0; ok && x < d[i][k][0]; ++x, ++el) ok = t.element_conserved_qtt(i, el) == want;
			}
			if (!ok) { ck = false; why += "11 "; }
			cnt.push_back(n);
			total *= n;
		}
		ivec ix(t.dim(), 0);
		for (size_t n = 0; ck && n < total; ++n)
		{
			auto sum = any_quantity(t.selection_rule->neutral());
			size_t r = 0;
			auto bs = t.block_sizes(ix);
			auto is = bs.begin();
			for (auto &&q : t.block_quantities(ix))
			{
				sum *= q;
				if (r >= ix.size() || any_quantity(q) != t.section_conserved_qtt(r, ix[r]) || *is != d[r][ix[r]][0]) { ck = false; why += "12 "; break; }
				++r;
				++is;
			}
			if (r != ix.size() || is != bs.end()) { ck = false; why += "13 "; }
			bool al = sum == any_quantity_cref(t.selection_rule);
			if (al != t.block_conservation_rule_test(ix)) { ck = false; why += "14 "; }
			allowed += al;
			if (ck && !ix.empty())
			{
				ivec el;
				for (size_t i = 0; i < ix.size(); ++i)
				{
					int64_t at = d[i][ix[i]][0].get<int64_t>() - 1;
					for (int64_t k = 0; k < ix[i]; ++k) at += d[i][k][0].get<int64_t>();
					el.push_back(at);
				}
				bool hollow = std::any_of(el.begin(), el.end(), [](auto x) { return x < 0; });
				for (size_t i = 0; i < ix.size(); ++i) hollow |= d[i][ix[i]][0] == 0;
				if (!hollow)
				{
					auto [bi, si] = t.element_index_decompose(el);
					for (size_t i = 0; i < ix.size(); ++i)
						if (bi[i] != ix[i] || si[i] != d[i][ix[i]][0].get<int64_t>() - 1) { ck = false; why += "15 "; break; }
				}
			}
			t.block_increment(ix);
		}
		if (ck && std::any_of(ix.begin(), ix.end(), [](auto x) { return x != 0; })) { ck = false; why += "16 "; }
		if (ck && btensor::btensor_compute_max_size(t) != (t.dim() ? allowed : 1)) { ck = false; why += "17 "; }
	}
	bool cplx = torch::isComplexType(ty);
	out["t"] = cplx ? "c" : ty == torch::kBool ? "b" : ty == torch::kDouble ? "d" : ty == torch::kFloat ? "f" : "?";
	out["b"] = b;
	try
	{
		if (!btensor::check_tensor(t).empty()) { ck = false; why += "3 "; }
	}
	catch (std::exception &e)
	{
		{ why += e.what(); ck = false; why += "4 "; }
	}
	auto dense = torch::zeros(shape, torch::kComplexDouble);
	for (auto &x : t.blocks())
	{
		auto &ix = std::get<0>(x);
		bool ok = ix.size() == static_cast<size_t>(t.dim());
		ivec bs;
		for (size_t i = 0; ok && i < ix.size(); ++i)
		{
			ok = ix[i] >= 0 && ix[i] < static_cast<int64_t>(t.section_number(i));
			if (ok) bs.push_back(t.section_size(i, ix[i]));
		}
		if (!ok || std::get<1>(x).sizes().vec() != bs)
		{
			{ ck = false; why += "5 "; }
			continue;
		}
		block_slice(dense, d, ix).copy_(std::get<1>(x));
	}
	if (ck)
	{
		try
		{
			auto td = t.to_dense();
			if (td.sizes().vec() != shape || !same_values(td.to(torch::kComplexDouble), dense)) { ck = false; why += "6 "; }
		}
		catch (std::exception &e)
		{
			{ why += e.what(); ck = false; why += "7 "; }
		}
	}
	json v = json::array(), w = json::array();
	bool iv = true; // the elements are integers of reasonable size
	auto re = torch::real(dense).contiguous(), im = torch::imag(dense).contiguous();
	for (int64_t i = 0; i < re.numel(); ++i)
	{
		int64_t a, c;
		if (!to_int(re.data_ptr<double>()[i], a)) iv = false;
		if (!to_int(im.data_ptr<double>()[i], c)) iv = false;
		v.push_back(a);
		if (cplx) w.push_back(c);
		if (!cplx && c != 0) { ck = false; why += "10 "; }
	}
	out["v"] = v;
	out["w"] = w;
	out["ck"] = ck ? 1 : 0;
	if (!iv) out["iv"] = 0;
	if (!ck) out["ckw"] = why.substr(0, 200);
	return out;
}
inline torch::Tensor densified(const torch::Tensor &t) { return t.to(torch::kComplexDouble); }
inline torch::Tensor densified(const btensor &t)
{
	ivec shape;
	for (int64_t i = 0; i < t.dim(); ++i)
	{
		int64_t n = 0;
		for (size_t k = 0; k < t.section_number(i); ++k) n += t.section_size(i, k);
		shape.push_back(n);
	}
	auto out = torch::zeros(shape, torch::kComplexDouble);
	for (auto &x : t.blocks())
	{
		auto at = out;
		for (int64_t i = 0; i < t.dim(); ++i)
		{
			int64_t start = 0;
			for (int64_t k = 0; k < std::get<0>(x)[i]; ++k) start += t.section_size(i, k);
			at = at.narrow(i, start, t.section_size(i, std::get<0>(x)[i]));
		}
		at.copy_(std::get<1>(x));
	}
	return out;
}
// structure only
inline json shape_only(const btensor &t, const ivec &)
{
	json j = dump_tensor(t);
	return json{{"d", j["d"]}, {"s", j["s"]}, {"ck", j["ck"]}, {"t", j["t"]}};
}
inline json shape_only(const torch::Tensor &t, const ivec &neutral)
{
	json d = json::array();
	for (auto n : t.sizes()) d.push_back(json::array({json::array({n, neutral})}));
	return json{{"d", d}, {"s", neutral}, {"ck", 1}, {"t", t.is_complex() ? "c" : t.scalar_type() == torch::kDouble ? "d" : "?"}};
}
inline btensor deep_copy(const btensor &t)
{
	btensor out(t);
	for (auto &x : out) std::get<1>(x) = std::get<1>(x).clone(); // keeps the memory layout
	return out;
}

// Scripts: JSON lines, each script starts with {"op":"begin",...}.  run(script, emit)
// executes one script, emitting one line per call; a crash or a hang is logged as a
// line with the call that was running.
// a call may use that much processor time (a loaded machine must not look like a hang)
inline void arm(int seconds)
{
	itimerval t{{0, 0}, {seconds, 0}};
	setitimer(ITIMER_PROF, &t, nullptr);
	alarm(seconds * 12);
}
inline int run_scripts(int argc, char **argv, const std::function<void(const std::vector<json> &, const std::function<void(const json &)> &)> &run,
                       int seconds = 10)
{
	if (argc < 3) { std::cerr << "usage: driver scripts.ndjson trace.ndjson\n"; return 2; }
	std::ifstream in(argv[1]);
	std::vector<std::vector<json>> scripts;
	std::string line;
	while (std::getline(in, line))
	{
		if (line.empty()) continue;
		json o = json::parse(line);
		if (o["op"] == "begin" || scripts.empty()) scripts.emplace_back();
		scripts.back().push_back(o);
	}
	torch::set_num_threads(1);
	torch::set_default_dtype(caffe2::TypeMeta::Make<double>());
	std::string outname = argv[2];
	{ std::ofstream clear(outname); }
	for (auto &s : scripts)
	{
		int fds[2];
		if (pipe(fds)) return 2;
		pid_t pid = fork();
		if (pid < 0) return 2;
		if (pid == 0)
		{
			close(fds[0]);
			struct rlimit nc{0, 0};
			setrlimit(RLIMIT_CORE, &nc);
			struct rlimit mem{6ull << 30, 6ull << 30};
			setrlimit(RLIMIT_AS, &mem);
			if (!getenv("DRV_VERBOSE")) { freopen("/dev/null", "w", stderr); freopen("/dev/null", "w", stdout); }
			arm(seconds);
			auto emit = [&](const json &j)
			{
				arm(seconds);
				std::string t = j.dump() + "\n";
				size_t o = 0;
				while (o < t.size()) { auto n = write(fds[1], t.data() + o, t.size() - o); if (n <= 0) _exit(3); o += n; }
			};
			try { run(s, emit); }
			catch (std::exception &e) { std::cerr << "driver: " << e.what() << "\n"; _exit(4); }
			catch (...) { _exit(4); }
			_exit(0);
		}
		close(fds[1]);
		std::string got;
		char buf[65536];
		ssize_t n;
		while ((n = read(fds[0], buf, sizeof buf)) > 0) got.append(buf, n);
		close(fds[0]);
		int st = 0;
		waitpid(pid, &st, 0);
		auto lines = std::count(got.begin(), got.end(), '\n');
		got.resize(got.rfind('\n') == std::string::npos ? 0 : got.rfind('\n') + 1);
		std::ofstream out(outname, std::ios::app);
		out << got;
		if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0) && lines < static_cast<long>(s.size()))
		{
			json j = s[lines];
			j["st"] = "crash";
			j["why"] = WIFSIGNALED(st) ? std::string(strsignal(WTERMSIG(st))) : "exit " + std::to_string(WEXITSTATUS(st));
			j["u"] = json::array();
			out << j.dump() << "\n";
		}
	}
	return 0;
}
