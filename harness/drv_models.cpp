// Conformance driver: models and local operators (spec/ModelStore.tla).
#include "qcommon.h"
#include "MPT.h"
#include "models.h"
#include "operators.h"

using namespace quantit;
using torch::Tensor;
namespace
{
void values(const Tensor &t, json &out)
{
	const bool real = !t.is_complex() || torch::imag(t).abs().max().item<double>() == 0;
	auto z = (t.is_complex() ? torch::real(t) : t.to(torch::kDouble)).contiguous();
	for (int64_t i = 0; i < z.numel(); ++i)
	{
		int64_t a;
		out.push_back(real && to_int(z.data_ptr<double>()[i], a) ? a : 99999999);
	}
}
template <class Net> json elements(const Net &H, const json &es, double scale)
{
	std::vector<Tensor> W;
	for (auto &t : H) W.push_back(densified(t).permute({1, 3, 0, 2}).contiguous());
	json out = json::array();
	for (auto &e : es)
	{
		Tensor row;
		for (size_t i = 0; i < W.size(); ++i)
		{
			auto m = W[i][e[0][i].get<int64_t>()][e[1][i].get<int64_t>()];
			row = i ? row.matmul(m) : m;
		}
		values(row.reshape({-1}) * scale, out);
	}
	return out;
}
Tensor scalar(const json &o, size_t i)
{
	auto t = torch::full({}, o["p"][i].get<double>() / 4);
	if (o["rk"] == static_cast<int>(i) + 1) return t.reshape({1});
	return t;
}
json one(const Sig &sg, const json &o)
{
	json r;
	ivec neutral(sg.mod.size(), 0);
	auto phys = [&] { return btensor(dims_of(sg, json::array({o["ph"]})), sg.make(o["s"].get<ivec>())); };
	const size_t L = o["l"].get<size_t>();
	const bool block = o["pl"] == 0, sc = o["sc"] == 1;
	if (o["op"] == "model")
	{
		const double scale = o["name"] == "heis" ? 16 : 4;
		auto tell = [&](const auto &H)
		{
			r["ts"] = json::array();
			for (auto &t : H)
			{
				r["ts"].push_back(shape_only(t, neutral));
			}
			if (o["wf"] == 1) r["me"] = elements(H, o["es"], scale);
		};
		torch::Scalar a = o["p"][0].get<double>() / 4, b = o["p"][1].get<double>() / 4;
		if (o["name"] == "heis")
		{
			if (block) tell(sc ? Heisenberg(a, L, phys()) : Heisenberg(scalar(o, 0), L, phys()));
			else tell(sc ? Heisenberg(a, L) : Heisenberg(scalar(o, 0), L));
		}
		else
		{
			if (block) tell(sc ? Hubbard(a, b, L, phys()) : Hubbard(scalar(o, 0), scalar(o, 1), L, phys()));
			else tell(sc ? Hubbard(a, b, L) : Hubbard(scalar(o, 0), scalar(o, 1), L));
		}
		return r;
	}
	// local operators
	r["ts"] = json::array();
	r["me"] = json::array();
	auto add = [&](const auto &t)
	{
		r["ts"].push_back(shape_only(t, neutral));
		values(densified(t), r["me"]);
	};
	if (block)
	{
		auto p = phys();
		auto shape = shape_from(p, p.conj());
		if (o["name"] == "heis") { auto [a, b, c] = pauli(shape); add(a); add(b); add(c); }
		else { auto [a, b, c, d] = fermions(shape); add(a); add(b); add(c); add(d); }
	}
	else if (o["name"] == "heis") { auto [a, b, c, d, e] = pauli(); add(a); add(b); add(c); add(d); add(e); }
	else { auto [a, b, c, d] = fermions(); add(a); add(b); add(c); add(d); }
	return r;
}
} // namespace

int main(int argc, char **argv)
{
	return run_scripts(argc, argv, [](const std::vector<json> &s, const std::function<void(const json &)> &emit) {
		Sig sg;
		for (auto &o : s)
		{
			json r = o;
			if (o["op"] == "begin") { sg = make_sig(o["sg"].get<ivec>()); emit(r); continue; }
			try { r["out"] = one(sg, o); r["st"] = "ok"; }
			catch (std::exception &e) { r["st"] = "ex"; r["why"] = std::string(e.what()).substr(0, 100); r["out"] = json::object(); }
			emit(r);
		}
	});
}
