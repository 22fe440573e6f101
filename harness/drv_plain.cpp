// Conformance driver: generalized contraction of plain tensors, lists of dimensions, numeric types.
#include "qcommon.h"
#include "dimension_manip.h"
#include "numeric.h"
#include "tensorgdot.h"

using torch::Tensor;
namespace
{
constexpr int NR = 4;
// same content, another memory layout
Tensor laid_out(const Tensor &t, int layout)
{
	switch (layout)
	{
	case 1: { // reversed strides
		if (t.dim() < 2) return t.clone();
		std::vector<int64_t> p(t.dim());
		for (int i = 0; i < t.dim(); ++i) p[i] = t.dim() - 1 - i;
		return t.permute(p).contiguous().clone().permute(p);
	}
	case 2: { // every second element of a larger tensor
		if (t.dim() == 0) return torch::full({3}, 7, t.options()).select(0, 1).copy_(t);
		auto sz = t.sizes().vec();
		for (auto &s : sz) s = 2 * s + 1;
		Tensor big = torch::full(sz, 77, t.options());
		Tensor v = big;
		for (int i = 0; i < t.dim(); ++i) v = v.slice(i, 1, 1 + 2 * t.size(i), 2);
		v.copy_(t);
		return v;
	}
	case 3: { // first two dimensions exchanged in memory
		if (t.dim() < 2) return t.clone();
		return t.transpose(0, 1).contiguous().clone().transpose(0, 1);
	}
	default: return t.contiguous().clone();
	}
}
Tensor from(const json &o, int ty)
{
	auto v = o["v"].get<std::vector<double>>(), w = o["w"].get<std::vector<double>>();
	auto sh = o["sh"].get<ivec>();
	Tensor t = torch::tensor(v, torch::kFloat64).reshape(sh);
	if (ty == 1)
	{
		Tensor i = torch::tensor(w, torch::kFloat64).reshape(sh);
		t = torch::complex(t, i);
	}
	else if (ty == 2) t = t.to(torch::kInt64);
	return laid_out(t, o["lay"].get<int>());
}
json dump(const Tensor &t)
{
	auto ints = [](const Tensor &x)
	{
		json o = json::array();
		Tensor c = x.to(torch::kFloat64).contiguous();
		for (int64_t i = 0; i < c.numel(); ++i)
		{
			double d = c.data_ptr<double>()[i];
			int64_t n = 0;
			if (to_int(d, n)) o.push_back(n);
			else o.push_back(123456789);
		}
		return o;
	};
	json j{{"sh", t.sizes().vec()}, {"v", ints(t.is_complex() ? torch::real(t) : t)}, {"w", json::array()}};
	if (t.is_complex()) j["w"] = ints(torch::imag(t));
	return j;
}
struct Store
{
	std::vector<Tensor> R;
	std::vector<json> seen;
	int ty;
	explicit Store(int _ty) : ty(_ty)
	{
		for (int i = 0; i < NR; ++i) { R.push_back(torch::zeros({}, ty == 1 ? torch::kComplexDouble : ty == 2 ? torch::kInt64 : torch::kFloat64)); seen.push_back(dump(R[i])); }
	}
	void call(const json &o, json &out)
	{
		std::string op = o["op"];
		int m = o.value("m", 0);
		auto reg = [&](const char *n) -> Tensor & { return R[o[n].get<int>() - 1]; };
		auto iv = [&](const char *n) { return o[n].get<ivec>(); };
		auto list = [&](const torch::IntArrayRef &l) { out["res"] = l.vec(); };
		if (op == "new") { reg("dst") = from(o, ty); return; }
		if (op.substr(0, 4) == "gdot")
		{
			Tensor &C = reg("c"), &A = reg("a"), &B = reg("b"), &D = reg("dst");
			auto be = o["be"].get<int>(), al = o["al"].get<int>();
			bool dflt = be == 1 && al == 1 && m % 2;
			bool same = true;
			if (op == "gdotn")
			{
				Tensor *r = dflt ? &quantit::tensorgdot_(C, A, B, o["x"].get<int>()) : &quantit::tensorgdot_(C, A, B, o["x"].get<int>(), be, al);
				same = r == &C;
			}
			else
			{
				auto d1 = iv("d1"), d2 = iv("d2");
				if (op == "gdot") D = dflt ? quantit::tensorgdot(C, A, B, d1, d2) : quantit::tensorgdot(C, A, B, d1, d2, be, al);
				else if (op == "gdot_") same = &(dflt ? quantit::tensorgdot_(C, A, B, d1, d2) : quantit::tensorgdot_(C, A, B, d1, d2, be, al)) == &C;
				else
				{ // into an output of the right shape whose content does not matter
					auto T = m % 3 == 0 ? laid_out(torch::full_like(C, 5), o["lay"].get<int>()) : (m % 3 == 1 ? torch::full(C.sizes(), 9, C.options()) : laid_out(C, o["lay"].get<int>()));
					if (o["x"].get<int>() == 1) T = C; // output and addend are the same tensor
					same = &(dflt ? quantit::tensorgdot_out(T, C, A, B, d1, d2) : quantit::tensorgdot_out(T, C, A, B, d1, d2, be, al)) == &T;
					D = o["x"].get<int>() == 1 ? T.clone() : T;
				}
			}
			out["res"] = {same ? 1 : 0};
			return;
		}
		if (op == "concat")
		{
			auto l = o["ls"].get<std::vector<ivec>>();
			switch (l.size())
			{
			case 0: list(quantit::concat(std::initializer_list<torch::IntArrayRef>{})); return;
			case 1: list(quantit::concat({torch::IntArrayRef(l[0])})); return;
			case 2: list(m % 2 ? quantit::concat(l[0], l[1]) : quantit::concat({torch::IntArrayRef(l[0]), torch::IntArrayRef(l[1])})); return;
			case 3: list(m % 2 ? quantit::concat(l[0], l[1], l[2]) : quantit::concat({torch::IntArrayRef(l[0]), torch::IntArrayRef(l[1]), torch::IntArrayRef(l[2])})); return;
			default: list(quantit::concat(l[0], l[1], l[2], l[3])); return;
			}
		}
		if (op == "reverse") { list(quantit::reverse(iv("l"))); return; }
		if (op == "slice") { auto l = iv("l"); size_t s = o["x"].get<int>(), n = o["y"].get<int>(); if (m % 2) list(quantit::slice(l, s, n)); else list(quantit::slice(torch::IntArrayRef(l), s, n)); return; }
		if (op == "prod") { out["res"] = {quantit::prod(iv("l"))}; return; }
		if (op == "prodn") { out["res"] = {quantit::prod(iv("l"), o["x"].get<int>(), o["y"].get<int>())}; return; }
		if (op == "num")
		{ // precision (minus log2 of epsilon) and real type of an element type
			static const std::vector<torch::ScalarType> T{torch::kFloat64, torch::kFloat32, torch::kFloat16, torch::kBFloat16, torch::kComplexDouble, torch::kComplexFloat, torch::kInt64, torch::kInt8};
			auto t = T.at(o["x"].get<int>());
			double e = quantit::eps(t).toDouble();
			int p = e > 0 ? static_cast<int>(std::lround(-std::log2(e))) : 0;
			auto r = quantit::real_type(t);
			int ri = -1;
			for (size_t i = 0; i < T.size(); ++i) if (T[i] == r) ri = i;
			out["res"] = {p, ri};
			return;
		}
		throw std::logic_error("unknown op " + op);
	}
	void run(const std::vector<json> &script, const std::function<void(const json &)> &emit)
	{
		for (auto &o : script)
		{
			json out = o;
			if (o["op"] != "begin")
			{
				out["st"] = "ok";
				out["res"] = json::array();
				try { call(o, out); }
				catch (std::exception &e) { out["st"] = "ex"; out["why"] = std::string(e.what()).substr(0, 80); }
				json u = json::array();
				for (int i = 0; i < NR; ++i)
				{
					json s = dump(R[i]);
					if (s != seen[i]) { u.push_back({i + 1, s}); seen[i] = s; }
				}
				out["u"] = u;
			}
			emit(out);
		}
	}
};
} // namespace
int main(int argc, char **argv)
{
	return run_scripts(argc, argv, [](const std::vector<json> &s, const std::function<void(const json &)> &emit) { Store st(s.at(0).value("ty", 0)); st.run(s, emit); });
}
