// Conformance driver: decompositions of block tensors and of plain tensors.
#include "qcommon.h"
#include "LinearAlgebra.h"
#include "blockTensor/LinearAlgebra.h"

using torch::Tensor;
namespace
{
constexpr int NR = 2;
constexpr double S = 4096;
torch::ScalarType dtype_of(int dt) { return dt == 1 ? torch::kComplexDouble : dt == 2 ? torch::kFloat32 : torch::kFloat64; }
int code_of(torch::ScalarType t)
{
	return t == torch::kFloat64 ? 0 : t == torch::kComplexDouble ? 1 : t == torch::kFloat32 ? 2 : t == torch::kComplexFloat ? 3 : 9;
}
// same tensor in double precision, times s
btensor widened(const btensor &t, double s)
{
	const bool cplx = t.options().dtype() == torch::kComplexDouble || t.options().dtype() == torch::kComplexFloat;
	btensor out = quantit::sparse_zeros_like(t, torch::TensorOptions().dtype(cplx ? torch::kComplexDouble : torch::kFloat64));
	for (auto &x : t.blocks())
	{
		auto &b = std::get<1>(x);
		out.block(std::get<0>(x)) = b.to(b.is_complex() ? torch::kComplexDouble : torch::kFloat64) * s;
	}
	return out;
}
json dumped(const btensor &t, double s)
{
	json j = dump_tensor(widened(t, s));
	j.erase("iv");
	int dt = code_of(torch::typeMetaToScalarType(t.options().dtype()));
	for (auto &x : t.blocks())
		if (code_of(std::get<1>(x).scalar_type()) != dt) dt = 9;
	j["dt"] = dt;
	if (j["t"] == "?" || j["t"] == "f") j["t"] = "d";
	if (dt == 1 && t.blocks().begin() == t.blocks().end()) j["t"] = "c";
	return j;
}
// a plain tensor in the same notation: one neutral section for each dimension
json dumped(const Tensor &t, const ivec &neutral, double s)
{
	json d = json::array(), b = json::array({json::array()}), v = json::array(), w = json::array();
	for (auto n : t.sizes()) { d.push_back(json::array({json::array({n, neutral})})); b[0].push_back(0); }
	bool cplx = t.is_complex();
	auto z = (t.to(torch::kComplexDouble) * s).contiguous();
	auto re = torch::real(z).contiguous(), im = torch::imag(z).contiguous();
	bool ck = true;
	for (int64_t i = 0; i < z.numel(); ++i)
	{
		int64_t a, c;
		to_int(re.data_ptr<double>()[i], a);
		to_int(im.data_ptr<double>()[i], c);
		v.push_back(a);
		if (cplx) w.push_back(c);
		if (!cplx && c) ck = false;
	}
	return json{{"d", d}, {"s", neutral}, {"v", v}, {"w", w}, {"b", b}, {"t", cplx ? "c" : "d"}, {"ck", ck ? 1 : 0}, {"dt", code_of(t.scalar_type())}};
}
struct Reg { bool plain = false; btensor b; Tensor t; };
struct Store
{
	Sig sg;
	bool plain;
	ivec neutral;
	std::vector<Reg> R;
	std::vector<json> seen;
	explicit Store(const json &begin) : sg(make_sig(begin["sg"].get<ivec>())), plain(begin["pl"] == 1), neutral(sg.mod.size(), 0)
	{
		for (int i = 0; i < NR; ++i)
		{
			Reg r;
			r.b = btensor({}, sg.make(neutral));
			r.b.block({}) = torch::zeros({});
			r.t = torch::zeros({});
			R.push_back(r);
			seen.push_back(state(i));
		}
	}
	json state(int i) { return plain ? dumped(R[i].t, neutral, 1) : dumped(R[i].b, 1); }
	template <class... X>
	json list(const X &...x)
	{
		if constexpr (std::is_same_v<std::tuple_element_t<0, std::tuple<X...>>, btensor>) return json::array({dumped(x, S)...});
		else return json::array({dumped(x, neutral, S)...});
	}
	template <class TEN>
	json decompose(const TEN &x, const json &o)
	{
		constexpr bool block = std::is_same_v<TEN, btensor>;
		std::string op = o["op"];
		int f = o["f"];
		size_t split = o["split"].get<size_t>();
		double tol = o["tol2"].get<double>() / 2;
		size_t mn = o["mn"].get<size_t>(), mx = o["mx"].get<size_t>();
		if (mx == 0) mx = std::numeric_limits<size_t>::max();
		int pow = o["pow"];
		json out;
		if (op == "svd" || op == "svdt" || op == "trunc")
		{
			auto [U, d, V] = f % 2 ? quantit::svd(x, split) : quantit::svd(x, static_cast<int>(split));
			out["full"] = list(U, d, V);
			if (op == "svdt")
			{
				auto [tU, td, tV] = f == 0   ? quantit::svd(x, split, tol, mn, mx, pow)
				                    : f == 1 ? quantit::svd(x, split, tol, pow)
				                    : f == 2 ? quantit::svd(x, split, tol, mn, mx)
				                             : quantit::svd(x, split, tol);
				out["tr"] = list(tU, td, tV);
			}
			else if (op == "trunc")
			{
				if constexpr (block)
				{
					auto [tU, td, tV] = quantit::truncate(btensor(U), btensor(d), btensor(V), mx, mn, tol, pow);
					out["tr"] = list(tU, td, tV);
				}
				else
				{
					auto both = std::make_tuple(U, d, V);
					auto [tU, td, tV] = f == 0   ? quantit::truncate(U, d, V, tol, mn, mx, pow)
					                    : f == 1 ? quantit::truncate(both, tol, 1, std::numeric_limits<size_t>::max(), pow)
					                    : f == 2 ? quantit::truncate(both, tol, mn, mx)
					                             : quantit::truncate(U, d, V, tol);
					out["tr"] = list(tU, td, tV);
				}
			}
		}
		else
		{
			auto [e, U] = [&] { if constexpr (block) return quantit::eigh(x, split); else return f % 2 ? quantit::eigh(x, split) : quantit::eigh(x, static_cast<int>(split)); }();
			out["full"] = list(U, e);
			std::swap(out["full"][0], out["full"][1]);
			if (op == "eight")
			{
				auto [te, tU] = f == 0   ? quantit::eigh(x, split, tol, mn, mx, pow)
				                : f == 1 ? quantit::eigh(x, split, tol, pow)
				                : f == 2 ? quantit::eigh(x, split, tol, mn, mx)
				                         : quantit::eigh(x, split, tol);
				out["tr"] = list(te, tU);
			}
			else if (op == "etrunc")
			{
				if constexpr (block)
				{
					auto [te, tU] = quantit::truncate(btensor(e), btensor(U), mx, mn, tol, pow);
					out["tr"] = list(te, tU);
				}
				else
				{
					auto order = std::get<1>(e.abs().sort(-1, true));
					auto sU = U.index_select(-1, order), se = e.index_select(-1, order);
					auto both = std::make_tuple(sU, se);
					auto [tU, te] = f == 0   ? quantit::truncate(sU, se, tol, mn, mx, pow)
					                : f == 1 ? quantit::truncate(both, tol, 1, std::numeric_limits<size_t>::max(), pow)
					                : f == 2 ? quantit::truncate(both, tol, mn, mx)
					                         : quantit::truncate(sU, se, tol);
					out["tr"] = list(te, tU);
				}
			}
		}
		return out;
	}
	void call(const json &o, json &out)
	{
		auto &r = R[o["r"].get<int>() - 1];
		if (o["op"] == "new")
		{
			int dt = o["dt"], f = o["f"];
			if (plain)
			{
				auto t = dense_from(o["v"], o["w"], shape_of(o["d"])).to(dtype_of(dt));
				r.t = f == 1 ? relayout(t) : t;
			}
			else
			{
				auto b = build_tensor(sg, o, f);
				if (dt == 2)
				{
					btensor c(dims_of(sg, o["d"]), sg.make(o["s"].get<ivec>()), torch::TensorOptions().dtype(torch::kFloat32));
					for (auto &x : b) c.block(std::get<0>(x)) = std::get<1>(x).to(torch::kFloat32);
					b = c;
				}
				r.b = b;
			}
			return;
		}
		if (o["op"] == "cut")
		{
			// rows sorted by decreasing magnitude, and the same reversed
			auto rows = o["rows"].get<std::vector<std::vector<double>>>();
			int64_t n = rows.at(0).size();
			std::vector<double> flat;
			for (auto &x : rows) flat.insert(flat.end(), x.begin(), x.end());
			auto d = torch::tensor(flat, torch::kFloat64).reshape({static_cast<int64_t>(rows.size()), n});
			if (rows.size() == 1 && o["f"].get<int>() % 2) d = d.reshape({n});
			double tol = o["tol2"].get<double>() / 2;
			size_t mn = o["mn"].get<size_t>(), mx = o["mx"].get<size_t>();
			if (mx == 0) mx = std::numeric_limits<size_t>::max();
			int pow = o["pow"];
			out["res"] = json{{"last", quantit::compute_last_index(d, tol, pow, mn, mx)},
			                  {"first", quantit::compute_first_index_ascending(d.flip({-1}), tol, pow, mn, mx)}};
			return;
		}
		out["res"] = plain ? decompose(r.t, o) : decompose(r.b, o);
	}
	void run(const std::vector<json> &script, const std::function<void(const json &)> &emit)
	{
		for (auto &o : script)
		{
			json out = o;
			if (o["op"] != "begin")
			{
				out["st"] = "ok";
				try { call(o, out); }
				catch (std::exception &e) { out["st"] = "ex"; out["why"] = std::string(e.what()).substr(0, 120); }
				json u = json::array();
				for (int i = 0; i < NR; ++i)
				{
					json s = state(i);
					if (s != seen[i]) { u.push_back({i + 1, s}); seen[i] = s; }
				}
				out["u"] = u;
			}
			emit(out);
		}
	}
};
} // namespace
int main(int argc, char **argv)
{
	return run_scripts(argc, argv, [](const std::vector<json> &s, const std::function<void(const json &)> &emit) { Store st(s.at(0)); st.run(s, emit); });
}
