// Conformance driver: random states (spec/RandStore.tla).
#include "qcommon.h"
#include "MPT.h"

using namespace quantit;
using torch::Tensor;
namespace
{
template <class Net> json told(const Net &x, const ivec &neutral)
{
	json r;
	r["oc"] = int64_t(x.orthogonality_center);
	r["ts"] = json::array();
	Tensor E;
	bool shaped = true;
	for (auto &t : x)
	{
		r["ts"].push_back(shape_only(t, neutral));
		Tensor d = densified(t);
		if (d.dim() != 3) { shaped = false; break; }
		auto left = E.defined() ? E : torch::eye(d.size(0), torch::kComplexDouble);
		if (left.size(0) != d.size(0)) { shaped = false; break; }
		E = torch::tensordot(torch::tensordot(left, d, {1}, {0}), d.conj(), {0, 1}, {0, 1});
	}
	double n = shaped && E.defined() ? torch::real(torch::diagonal(E).sum()).item<double>() : 0;
	r["nz"] = std::isfinite(n) && n > 0 ? 1 : 0;
	return r;
}
json one(const Sig &sg, const json &o)
{
	ivec neutral(sg.mod.size(), 0);
	const size_t D = o["y"].get<size_t>(), L = o["l"].get<size_t>();
	const int m = o["m"];
	auto opt = o["c"] == 1 ? torch::TensorOptions(torch::kComplexDouble) : torch::TensorOptions(torch::kDouble);
	const unsigned seed = o["x"].get<unsigned>();
	auto q = [&] { return sg.make(o["q"].get<ivec>()); };
	auto operator_sites = [&](auto zero) {
		using T = decltype(zero);
		std::vector<T> v;
		for (auto &t : o["ts"])
		{
			json z = t;
			z["bl"] = t["b"];
			if constexpr (std::is_same_v<T, btensor>) v.push_back(build_tensor(sg, z, 0));
			else v.push_back(dense_from(t["v"], t["w"], shape_of(t["d"])));
		}
		return v;
	};
	if (o["pl"] == 1)
	{
		if (o["k"] == "one") return told(o["c"] == 0 && m % 2 ? random_MPS(L, D, size_t(shape_of(o["ph"])[0])) : random_MPS(L, D, size_t(shape_of(o["ph"])[0]), opt), neutral);
		if (o["k"] == "list") return told(random_MPS(D, shape_of(o["ph"]), opt), neutral);
		return told(random_MPS(D, MPO(operator_sites(Tensor())), opt), neutral);
	}
	std::vector<btensor> ph;
	for (auto &d : o["ph"]) ph.push_back(btensor(dims_of(sg, json::array({d})), sg.make(neutral)));
	if (o["k"] == "one") return told(m % 2 ? random_MPS(L, D, ph[0], q(), opt, seed) : random_bMPS(L, D, ph[0], q(), opt, seed), neutral);
	if (o["k"] == "list") return told(m % 2 ? random_MPS(D, ph, q(), opt, seed) : random_bMPS(D, ph, q(), opt, seed), neutral);
	bMPO H(operator_sites(btensor()));
	return told(m % 2 ? random_MPS(D, H, q(), opt, seed) : random_bMPS(D, H, q(), opt, seed), neutral);
}
} // namespace

int main(int argc, char **argv)
{
	return run_scripts(argc, argv, [](const std::vector<json> &s, const std::function<void(const json &)> &emit) {
		Sig sg;
		for (auto &o : s)
		{
			json r = o;
			if (o["op"] == "begin") { sg = make_sig(o["sg"].get<ivec>()); emit(r); continue; }
			try { r["out"] = one(sg, o); r["st"] = "ok"; }
			catch (std::exception &e) { r["st"] = "ex"; r["why"] = std::string(e.what()).substr(0, 100); r["out"] = json::object(); }
			emit(r);
		}
	});
}
