// Conformance driver: ground state search (spec/DmrgStore.tla).
#include "qcommon.h"
#include "LinearAlgebra.h"
#include "MPT.h"
#include "blockTensor/LinearAlgebra.h"
#include "dmrg.h"

using namespace quantit;
using torch::Tensor;
namespace
{
constexpr double unit = 1048576; // fixed point numbers of the trace: 2^-20
int64_t fixed(double x) { return std::abs(x) < 2000 ? std::llround(x * unit) : x > 0 ? 2147000000 : x < 0 ? -2147000000 : 2147000001; }
double number(const Tensor &t) { auto c = t.to(torch::kComplexDouble).reshape({-1})[0].item().toComplexDouble(); return std::abs(c.imag()) < 1e-6 ? c.real() : NAN; }
double number(const btensor &t) { return t.dim() ? NAN : number(densified(t).reshape({-1})); }
template <class Net> json bonds(const Net &x)
{
	json b = json::array();
	for (auto &t : x)
	{
		if constexpr (std::is_same_v<std::decay_t<decltype(t)>, btensor>)
		{ // sections in which nothing is stored are left by truncations, on purpose
			std::vector<bool> used(t.section_number(2));
			for (auto &bl : t) used[std::get<0>(bl)[2]] = true;
			int64_t n = 0;
			for (size_t i = 0; i < used.size(); ++i)
				if (used[i]) n += t.section_size(2, i);
			b.push_back(n);
		}
		else b.push_back(t.sizes()[2]);
	}
	return b;
}
struct Recorder : dmrg_default_logger
{
	json ev = json::array();
	void init(const dmrg_options &o) override { ev.push_back(json::array({"init", o.maximum_iterations})); }
};
// looks at the reports of whole sweeps
struct Whole final : Recorder
{
	void it_log_all(size_t i, const Tensor &E, const MPS &s) override { ev.push_back(json::array({"it", i, fixed(number(E)), bonds(s)})); }
	void it_log_all(size_t i, const btensor &E, const bMPS &s) override { ev.push_back(json::array({"it", i, fixed(number(E)), bonds(s)})); }
	void end_log_all(size_t i, const Tensor &E, const MPS &s) override { ev.push_back(json::array({"end", i, fixed(number(E)), bonds(s)})); }
	void end_log_all(size_t i, const btensor &E, const bMPS &s) override { ev.push_back(json::array({"end", i, fixed(number(E)), bonds(s)})); }
};
// looks at the parts of the reports
struct Parts final : Recorder
{
	void log_step(size_t i) override { ev.push_back(json::array({"step", i})); }
	void log_energy(const Tensor &E) override { ev.push_back(json::array({"energy", fixed(number(E))})); }
	void log_energy(const btensor &E) override { ev.push_back(json::array({"energy", fixed(number(E))})); }
	void log_bond_dims(const MPS &s) override { ev.push_back(json::array({"bonds", bonds(s)})); }
	void log_bond_dims(const bMPS &s) override { ev.push_back(json::array({"bonds", bonds(s)})); }
};
struct Plain { using Tens = Tensor; using MPS = quantit::MPS; using MPO = quantit::MPO; };
struct Block { using Tens = btensor; using MPS = quantit::bMPS; using MPO = quantit::bMPO; };
// everything the network stands for; operators: all outs, then all ins
template <class Net> Tensor expand(const Net &x, int r)
{
	Tensor A;
	for (auto &t : x)
	{
		Tensor d = densified(t);
		if (d.dim() != r) return Tensor();
		if (r == 4) d = d.permute({0, 1, 3, 2});
		if (!A.defined()) { A = d; continue; }
		if (A.size(-1) != d.size(0)) return Tensor();
		A = torch::tensordot(A, d, {A.dim() - 1}, {0});
	}
	if (!A.defined()) return A;
	if (r == 3) return A.reshape({-1});
	std::vector<int64_t> p{0}, n;
	const int64_t L = (A.dim() - 2) / 2;
	int64_t tot = 1;
	for (int64_t i = 0; i < L; ++i) { p.push_back(1 + 2 * i); tot *= A.size(1 + 2 * i); }
	for (int64_t i = 0; i < L; ++i) p.push_back(2 + 2 * i);
	p.push_back(A.dim() - 1);
	return A.permute(p).reshape({tot, -1});
}
int64_t defect(const Tensor &g)
{
	if (g.numel() == 0) return 0;
	double x = (g - torch::eye(g.size(0), torch::kComplexDouble)).abs().max().item<double>() * 1e9;
	return x < 1e9 ? int64_t(x) : 1000000000;
}
void values(const Tensor &t, json &v, json &w)
{
	auto re = torch::real(t).contiguous(), im = torch::imag(t).contiguous();
	for (int64_t i = 0; i < re.numel(); ++i)
	{
		v.push_back(fixed(re.data_ptr<double>()[i]));
		w.push_back(fixed(im.data_ptr<double>()[i]));
	}
}
template <class F> json one(const Sig &sg, const json &o, json &zero)
{
	using Tens = typename F::Tens;
	using MPS = typename F::MPS;
	using MPO = typename F::MPO;
	ivec neutral(sg.mod.size(), 0);
	auto sites = [&](const json &l) {
		std::vector<Tens> v;
		for (auto &t : l)
		{
			json z = t;
			z["bl"] = t["b"];
			if constexpr (std::is_same_v<Tens, btensor>) v.push_back(build_tensor(sg, z, 0));
			else
			{
				auto x = dense_from(t["v"], t["w"], shape_of(t["d"]));
				v.push_back(t["t"] == "c" ? x.to(torch::kComplexDouble) : x);
			}
		}
		return v;
	};
	torch::manual_seed(o["x"].get<int64_t>());
	MPO H(sites(o["hs"]));
	MPO before(H);
	auto crit = o["crit"].get<double>();
	auto cut = o["cut"].get<int>();
	dmrg_options opt(cut == 0 ? 0. : std::pow(10., -cut), crit < 0 ? 1e9 : crit == 0 ? 0. : 1 / crit, o["maxb"].get<size_t>(), o["minb"].get<size_t>(), o["maxit"].get<size_t>());
	Whole whole;
	Parts parts;
	const int m = o["m"];
	Recorder &rec = m == 1 ? static_cast<Recorder &>(parts) : whole;
	json r;
	MPS S;
	Tens E;
	if (o["k"] == "random")
	{
		if constexpr (std::is_same_v<Tens, btensor>) std::tie(E, S) = m == 2 ? dmrg(H, sg.make(o["q"].get<ivec>()), opt) : dmrg(H, sg.make(o["q"].get<ivec>()), opt, rec);
		else std::tie(E, S) = m == 2 ? dmrg(H, opt) : dmrg(H, opt, rec);
	}
	else
	{
		auto v = sites(o["ss"]);
		S = MPS(v);
		// (small integers: no rounding)
		Tensor start = expand(S, 3);
		zero = !start.defined() || !start.abs().any().item<bool>() ? 1 : 0;
		if (v.size() > 0 && zero == 0)
		{ // with its center where it is asked for, and normalized or not
			S.move_oc(v.size() - 1);
			S.move_oc(0);
			S.move_oc(o["oc"].get<int64_t>());
			auto &c = S[S.orthogonality_center];
			if (o["canon"] == 1) c = c / std::sqrt(number(tensordot(c, c.conj(), {0, 1, 2}, {0, 1, 2})));
		}
		E = m == 2 ? dmrg(H, S, opt) : dmrg(H, S, opt, rec);
	}
	r["ev"] = rec.ev;
	r["e"] = fixed(number(E));
	r["oc"] = int64_t(S.orthogonality_center);
	r["ts"] = json::array();
	json dl = json::array(), dr = json::array();
	for (auto &t : S)
	{
		r["ts"].push_back(shape_only(t, neutral));
		Tensor d = densified(t);
		if (d.dim() != 3) continue;
		auto left = d.reshape({-1, d.size(-1)}), right = d.reshape({d.size(0), -1});
		// (sections in which nothing is stored are nothing)
		auto kl = right.abs().sum(1).nonzero().reshape({-1}), kr = left.abs().sum(0).nonzero().reshape({-1});
		if constexpr (std::is_same_v<Tens, btensor>) { left = left.index_select(1, kr); right = right.index_select(0, kl); }
		dl.push_back(defect(left.t().conj().matmul(left)));
		dr.push_back(defect(right.matmul(right.t().conj())));
	}
	r["dl"] = dl;
	r["dr"] = dr;
	r["eb"] = bonds(S);
	// the operator is an input
	bool same = H.size() == before.size();
	for (size_t i = 0; same && i < H.size(); ++i) same = densified(H[i]).equal(densified(before[i])) && H[i].options().requires_grad() == before[i].options().requires_grad();
	r["hs"] = same ? 1 : 0;
	Tensor psi = expand(S, 3);
	// where a bond is larger than the limit: the last Schmidt value that is kept compared to the last one within the limit
	r["sch"] = json::array();
	int64_t left = 1;
	for (size_t i = 0; i + 1 < S.size(); ++i)
	{
		left *= densified(S[i]).size(1);
		int64_t n = r["eb"][i], x = 1000;
		const int64_t lim = opt.maximum_bond;
		if (n > lim && psi.defined() && psi.numel() > 0)
		{
			auto d = torch::linalg_svdvals(psi.reshape({left, -1}));
			double a = d[lim - 1 < d.size(0) ? lim - 1 : d.size(0) - 1].item<double>(), b = n - 1 < d.size(0) ? d[n - 1].item<double>() : 0;
			x = a > 1e-10 ? int64_t(1000 * b / a) : 1000;
		}
		r["sch"].push_back(x);
	}
	r["n2"] = psi.defined() ? fixed(torch::real((psi * psi.conj()).sum()).item<double>()) : 0;
	if (o["val"] == 1 && psi.defined())
	{
		json v = json::array(), w = json::array();
		values(psi, v, w);
		r["v"] = v;
		r["w"] = w;
		auto sec = o["sec"].get<ivec>();
		if (!sec.empty())
		{ // eigenvalues and eigenvectors of the operator on these configurations, to be verified
			auto ix = torch::tensor(sec, torch::kLong);
			auto h = expand(H, 4).index_select(0, ix).index_select(1, ix);
			auto [lam, Q] = torch::linalg_eigh(h, "L");
			json lv = json::array(), lw = json::array(), qv = json::array(), qw = json::array();
			values(lam.to(torch::kComplexDouble), lv, lw);
			values(Q.t().contiguous(), qv, qw); // one vector after the other
			r["lam"] = lv;
			r["qv"] = qv;
			r["qw"] = qw;
		}
	}
	return r;
}
} // namespace

int main(int argc, char **argv)
{
	return run_scripts(argc, argv, [](const std::vector<json> &s, const std::function<void(const json &)> &emit) {
		Sig sg;
		for (auto &o : s)
		{
			json r = o;
			if (o["op"] == "begin") { sg = make_sig(o["sg"].get<ivec>()); emit(r); continue; }
			r["z"] = 0;
			try { r["out"] = o["pl"] == 1 ? one<Plain>(sg, o, r["z"]) : one<Block>(sg, o, r["z"]); r["st"] = "ok"; }
			catch (std::exception &e) { r["st"] = "ex"; r["why"] = std::string(e.what()).substr(0, 160); r["out"] = json::object(); }
			emit(r);
		}
	}, 60);
}
