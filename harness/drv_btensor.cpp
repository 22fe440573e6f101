// Conformance driver for the block-tensor operations (spec/TensorStore.tla).
#include "qcommon.h"
#include <optional>
#include <set>
using namespace quantit;

static const int NR = 6;

static btensor cmp_form(const std::string &c, const btensor &a, const btensor &b, int m)
{
	if (c == "ge") return m == 0 ? a.ge(b) : m == 1 ? a >= b : quantit::ge(a, b);
	if (c == "le") return m == 0 ? a.le(b) : m == 1 ? a <= b : quantit::le(a, b);
	if (c == "less") return m == 0 ? a.less(b) : m == 1 ? a < b : quantit::less(a, b);
	if (c == "greater") return m == 0 ? a.greater(b) : m == 1 ? a > b : quantit::greater(a, b);
	if (c == "eq") return m == 0 ? a.eq(b) : m == 1 ? a == b : quantit::eq(a, b);
	return m == 0 ? a.not_equal(b) : m == 1 ? a != b : quantit::not_equal(a, b);
}
static btensor cmps_form(const std::string &c, const btensor &a, double x, int m)
{
	btensor::Scalar s(x);
	// the reversed forms are written scalar-first with the mirrored comparison
	if (c == "ge") return m == 0 ? a.ge(s) : m == 1 ? a >= s : m == 2 ? quantit::le(s, a) : s <= a;
	if (c == "le") return m == 0 ? a.le(s) : m == 1 ? a <= s : m == 2 ? quantit::ge(s, a) : s >= a;
	if (c == "less") return m == 0 ? a.less(s) : m == 1 ? a < s : m == 2 ? quantit::greater(s, a) : s > a;
	if (c == "greater") return m == 0 ? a.greater(s) : m == 1 ? a > s : m == 2 ? quantit::less(s, a) : s < a;
	if (c == "eq") return m == 0 ? a.eq(s) : m == 1 ? a == s : m == 2 ? quantit::eq(s, a) : s == a;
	return m == 0 ? a.not_equal(s) : m == 1 ? a != s : m == 2 ? quantit::not_equal(s, a) : s != a;
}

struct Exec
{
	Sig sg;
	std::vector<std::optional<btensor>> reg = std::vector<std::optional<btensor>>(NR);
	std::vector<json> shown = std::vector<json>(NR, json{{"t", "0"}});

	// performs the call; returns true with r set when the call yields a plain value
	bool call(const json &o, json &r)
	{
		const std::string op = o["op"];
		const int m = o.value("m", 0);
		btensor none(btensor::vec_list_t{}, sg.make(ivec(sg.mod.size(), 0)));
		auto at = [&](const char *k) -> btensor & { auto &x = reg[o[k].get<int>() - 1]; return x ? *x : none; };
		btensor &A = at("a");
		btensor &B = at("b");
		const btensor &cA = A, &cB = B;
		const int dst = o["dst"].get<int>() - 1;
		auto num = [&](const char *k) { return o[k].get<double>(); };
		auto q = [&]() { return sg.make(o["q"].get<ivec>()); };
		auto set = [&](btensor t) { reg[dst] = std::move(t); return false; };
		auto ref = [&](btensor &t) { if (&t != &A) throw std::logic_error("in-place call returned another object"); return false; };
		btensor::Scalar x = o.contains("x") ? btensor::Scalar(num("x")) : btensor::Scalar(1.0);

		if (op == "new") return set(build_tensor(sg, o, m));
		if (op == "copy")
		{
			if (m == 0) return set(btensor(cA));
			if (m == 1) { btensor t; t = cA; return set(t); }
			if (m == 2) { btensor t(cA), u; swap(t, u); return set(u); }
			btensor t(cA); btensor u(std::move(t)); return set(std::move(u));
		}
		if (op == "add")
		{
			if (num("x") == 1 && m == 1) return set(cA + cB);
			if (m == 2) { btensor t = num("x") == 1 ? deep_copy(B) : B; return set(cA.add(std::move(t), x)); } // B keeps the blocks of t alive
			if (num("x") == 1 && m == 3) { btensor t = deep_copy(A); t += cB; return set(t); }
			return set(cA.add(cB, x));
		}
		if (op == "add_")
		{
			if (num("x") == 1 && m == 1) return ref(A += cB);
			if (m == 2) { btensor t = num("x") == 1 ? deep_copy(B) : B; return ref(A.add_(std::move(t), x)); }
			if (num("x") == 1 && m == 3) { btensor t = deep_copy(B); return ref(A += std::move(t)); }
			return ref(A.add_(cB, x));
		}
		if (op == "sub")
		{
			if (num("x") == 1 && m == 1) return set(cA - cB);
			if (m == 2) { btensor t = num("x") == 1 ? deep_copy(B) : B; return set(cA.sub(std::move(t), x)); }
			if (m == 3) return set(cA.subtract(cB, x));
			return set(cA.sub(cB, x));
		}
		if (op == "sub_")
		{
			if (num("x") == 1 && m == 1) return ref(A -= cB);
			if (m == 2) { btensor t = num("x") == 1 ? deep_copy(B) : B; return ref(A.sub_(std::move(t), x)); }
			if (m == 3) return ref(A.subtract_(cB, x));
			return ref(A.sub_(cB, x));
		}
		if (op == "adds") return set(cA.add(x, btensor::Scalar(num("y"))));
		if (op == "adds_") { if (m == 1 && num("y") == 1) return ref(A += x); return ref(A.add_(x, btensor::Scalar(num("y")))); }
		if (op == "subs") return set(m == 1 ? cA.subtract(x, btensor::Scalar(num("y"))) : cA.sub(x, btensor::Scalar(num("y"))));
		if (op == "subs_") { if (m == 1 && num("y") == 1) return ref(A -= x); if (m == 2) return ref(A.subtract_(x, btensor::Scalar(num("y")))); return ref(A.sub_(x, btensor::Scalar(num("y")))); }
		if (op == "mul") return set(m == 1 ? cA * cB : cA.mul(cB));
		if (op == "mul_") return ref(m == 1 ? (A *= cB) : A.mul_(cB));
		if (op == "muls")
		{
			if (num("x") == -1 && m == 0) return set(-cA);
			return set(m == 1 ? cA * x : m == 2 ? x * cA : m == 3 ? cA.multiply(x) : cA.mul(x));
		}
		if (op == "muls_") return ref(m == 1 ? (A *= x) : m == 2 ? A.multiply_(x) : A.mul_(x));
		if (op == "div") return set(m == 1 ? cA / cB : cA.div(cB));
		if (op == "div_") return ref(m == 1 ? (A /= cB) : A.div_(cB));
		if (op == "divs") return set(m == 1 ? cA / x : cA.div(x));
		if (op == "divs_") return ref(m == 1 ? (A /= x) : A.div_(x));
		if (op == "rdivs") return set(x / cA);
		if (op == "pow") return set(m == 1 ? quantit::pow(cA, cB) : cA.pow(cB));
		if (op == "pow_") return ref(m == 1 ? quantit::pow_(A, cB) : A.pow_(cB));
		if (op == "pows") return set(m == 1 ? quantit::pow(cA, x) : cA.pow(x));
		if (op == "pows_") return ref(m == 1 ? quantit::pow_(A, x) : A.pow_(x));
		if (op == "abs") return set(cA.abs());
		if (op == "abs_") return ref(A.abs_());
		if (op == "sqrt") return set(m == 1 ? quantit::sqrt(cA) : cA.sqrt());
		if (op == "sqrt_") return ref(m == 1 ? quantit::sqrt_(A) : A.sqrt_());
		if (op == "sum") return set(m == 1 ? quantit::sum(cA) : cA.sum());
		if (op == "ge" || op == "le" || op == "less" || op == "greater" || op == "eq" || op == "not_equal")
			return set(cmp_form(op, cA, cB, m));
		if (op == "cmps") return set(cmps_form(o["c"], cA, num("x"), m));
		if (op == "tensordot")
		{
			auto p = o["p"].get<ivec>(), qq = o["q"].get<ivec>();
			return set(m % 2 ? quantit::tensordot(cA, cB, p, qq) : cA.tensordot(cB, p, qq));
		}
		if (op == "bmm") return set(cA.bmm(cB));
		if (op == "permute") return set(cA.permute(o["p"].get<ivec>()));
		if (op == "permute_") return ref(A.permute_(o["p"].get<ivec>()));
		if (op == "transpose" || op == "transpose_")
		{
			int64_t i = o["x"], j = o["y"];
			if (op == "transpose") return set(cA.transpose(i, j));
			return ref(A.transpose_(i, j));
		}
		if (op == "t") return set(cA.t());
		if (op == "t_") return ref(A.t_());
		if (op == "reshape") return set(cA.reshape(torch::IntArrayRef(o["p"].get<ivec>())));
		if (op == "reshape_as") return set(cA.reshape_as(cB));
		if (op == "reshape_over") return set(cA.reshape_as<reshape_mode::overwrite_c_vals>(cB));
		if (op == "view") return set(A.basic_create_view(o["p"].get<ivec>(), o["y"].get<int>() == 1));
		if (op == "shape_from") return set(m == 1 ? quantit::shape_from(cA, o["p"].get<ivec>()) : cA.shape_from(o["p"].get<ivec>()));
		if (op == "shape_prod") return set(m == 1 ? quantit::shape_from(std::vector<btensor>{cA, cB}) : m == 2 ? quantit::shape_from(cA, cB) : cA.tensor_product_shape(cB));
		if (op == "like") return set(sparse_zeros_like(cA));
		if (op == "squeezed") return set(m == 1 ? quantit::squeeze(cA, o["x"].get<int64_t>()) : cA.squeeze(o["x"].get<int64_t>()));
		if (op == "squeezed_") return ref(m == 1 ? quantit::squeeze_(A, o["x"].get<int64_t>()) : A.squeeze_(o["x"].get<int64_t>()));
		if (op == "squeeze") return set(m == 1 ? quantit::squeeze(cA) : cA.squeeze());
		if (op == "squeeze_") return ref(m == 1 ? quantit::squeeze_(A) : A.squeeze_());
		if (op == "put") return ref(A.basic_index_put_(o["p"].get<ivec>(), cB));
		if (op == "putd")
		{
			auto t = dense_from(o["v"], json::array(), o["q"].get<ivec>());
			if (m == 1) t = relayout(t);
			auto &out = A.basic_index_put_(o["p"].get<ivec>(), t);
			t.fill_(77); // copied, not shared
			return ref(out);
		}
		if (op == "setblock")
		{
			auto p = o["p"].get<ivec>();
			auto &blk = A.block(p); // refuses what isn't allowed
			ivec sh;
			for (size_t i = 0; i < p.size(); ++i) sh.push_back(A.section_size(i, p[i]));
			blk = dense_from(o["v"], json::array(), sh);
			if (A.options().dtype() == torch::kFloat) blk = blk.to(torch::kFloat);
			return false;
		}
		if (op == "conj") return set(cA.conj());
		if (op == "conj_only") return set(cA.conj_only());
		if (op == "inverse") { if (m == 1) return set(quantit::inverse_cvals(cA)); if (m == 2) { btensor t = deep_copy(A); return set(quantit::inverse_cvals(std::move(t))); } return set(cA.inverse_cvals()); }
		if (op == "inverse_") return ref(m == 1 ? quantit::inverse_cvals_(A) : A.inverse_cvals_());
		// "al": the charge passed is read from the tensor itself, of section al[1] of dimension al[0] or of its selection rule
		auto charge = [&](auto &&f) -> decltype(auto)
		{
			if (!o.contains("al")) return f(any_quantity_cref(q()));
			if (o["al"].empty()) return f(any_quantity_cref(A.selection_rule->get()));
			return f(any_quantity_cref(A.section_conserved_qtt(o["al"][0].get<size_t>(), o["al"][1].get<size_t>())));
		};
		if (op == "cvshift") return set(charge([&](any_quantity_cref c) { return cA.cval_shift(c, o["x"].get<int64_t>()); }));
		if (op == "cvshift_") return ref(charge([&](any_quantity_cref c) -> btensor & { return m == 1 ? quantit::cval_shift_(A, c, o["x"].get<int64_t>()) : A.cval_shift_(c, o["x"].get<int64_t>()); }));
		if (op == "ncshift_") return ref(charge([&](any_quantity_cref c) -> btensor & { return m == 1 ? quantit::non_conserving_cval_shift_(A, c, o["x"].get<int64_t>()) : A.non_conserving_cval_shift_(c, o["x"].get<int64_t>()); }));
		if (op == "shiftsel_") return ref(charge([&](any_quantity_cref c) -> btensor & { return m == 1 ? quantit::shift_selection_rule_(A, c) : A.shift_selection_rule_(c); }));
		if (op == "setsel_") return ref(charge([&](any_quantity_cref c) -> btensor & { return m == 1 ? quantit::set_selection_rule_(A, c) : A.set_selection_rule_(c); }));
		if (op == "neutralsel") return set(cA.neutral_selection_rule());
		if (op == "neutralshape") return set(cA.neutral_shape());
		if (op == "neutralshape_") return ref(A.neutral_shape_());
		if (op == "fromdense")
		{
			// y = 0: values of type t, nothing said about the type of the result; y = 1: double values, type t asked for
			const auto ty = o["t"] == "c" ? torch::kComplexDouble : o["t"] == "f" ? torch::kFloat : torch::kDouble;
			auto t = dense_from(o["v"], o["w"], o["p"].get<ivec>());
			auto opt = torch::TensorOptions();
			if (num("y") == 0) t = t.to(ty);
			else opt = opt.dtype(ty);
			if (m == 1) t = relayout(t);
			auto vl = dims_of(sg, o["d"]);
			auto sel = sg.make(o["s"].get<ivec>());
			btensor like(vl, sel, torch::TensorOptions().dtype(num("x") == 2 ? torch::kFloat : torch::kDouble));
			torch::Scalar cut(num("x"));
			btensor res = m == 2 && num("y")                          ? from_basic_tensor_like(like, t, cut, opt)
			              : m == 2                                    ? from_basic_tensor_like(like, t, cut)
			              : num("x") == 0 && m == 3 && num("y") == 0  ? from_basic_tensor(vl, sel, t)
			              : num("y")                                  ? from_basic_tensor(vl, sel, t, cut, opt)
			                                                          : from_basic_tensor(vl, sel, t, cut);
			t.fill_(77); // the blocks are copies: what happens to the source later does not reach them
			return set(std::move(res));
		}
		if (op == "full")
		{
			auto vl = dims_of(sg, o["d"]);
			auto sel = sg.make(o["s"].get<ivec>());
			if (num("x") == 0) return set(quantit::zeros(vl, sel));
			if (num("x") == 1) return set(quantit::ones(vl, sel));
			return set(quantit::full(vl, sel, x));
		}
		if (op == "full_like")
		{
			if (num("x") == 0) return set(quantit::zeros_like(cA));
			if (num("x") == 1) return set(quantit::ones_like(cA));
			return set(quantit::full_like(cA, x));
		}
		if (op == "eye") return set(quantit::eye(dims_of(sg, o["d"])));
		if (op == "eye_like") return set(quantit::eye_like(cA));
		if (op == "findrule")
		{
			ivec sh = o["p"].get<ivec>();
			r = read_charge(find_selection_rule(dense_from(o["v"], json::array(), sh), cA, o["x"].get<double>()));
			return true;
		}
		if (op == "fac")
		{
			// factories of random or unspecified values; the values are brought to integers, the range is judged by the specification
			const std::string k = o["c"];
			auto lo = o["x"].get<int64_t>(), hi = o["y"].get<int64_t>();
			auto vl = dims_of(sg, o["d"]);
			auto sel = sg.make(o["s"].get<ivec>());
			btensor like(vl, sel);
			bool l = m % 2;
			btensor t = k == "empty" ? (l ? quantit::empty_like(like) : quantit::empty(vl, sel))
			          : k == "rand"  ? (l ? quantit::rand_like(like) : quantit::rand(vl, sel))
			          : k == "randn" ? (l ? quantit::randn_like(like) : quantit::randn(vl, sel))
			          : lo == 0 && m >= 2 ? (l ? quantit::randint_like(hi, like) : quantit::randint(hi, vl, sel))
			                              : (l ? quantit::randint_like(lo, hi, like) : quantit::randint(lo, hi, vl, sel));
			for (auto &b : t)
			{
				auto &v = std::get<1>(b);
				if (k == "empty") v.fill_(lo);
				if (k == "rand") v = torch::floor(v * 1000);
				if (k == "randn") v = torch::floor(v * 10);
			}
			return set(t);
		}
		if (op == "anynan") { r = cA.anynan() ? 1 : 0; return true; }
		if (op == "any") { r = cA.any().item().toBool() ? 1 : 0; return true; }
		if (op == "isnan") return set(cA.isnan());
		if (op == "item")
		{
			int64_t v;
			if (!to_int(cA.item().toDouble(), v)) v = 12345678;
			r = v;
			return true;
		}
		if (op == "allclosetol") { r = quantit::allclose(cA, cB, o["x"].get<double>() / 4, o["y"].get<double>()) ? 1 : 0; return true; }
		if (op == "allclose") { r = quantit::allclose(cA, cB) ? 1 : 0; return true; }
		throw std::logic_error("driver: unknown operation " + op);
	}
	// registers that an in-place change of the blocks of register k changes too
	json shared_with(int k)
	{
		json out = json::array();
		for (int i = 0; i < NR; ++i)
		{
			if (i == k || !reg[i]) continue;
			bool overlap = false;
			for (auto &x : *reg[k])
				for (auto &y : *reg[i]) overlap |= std::get<1>(x).numel() > 0 && std::get<1>(x).storage().data() == std::get<1>(y).storage().data();
			if (!overlap) continue;
			btensor keep_k = deep_copy(*reg[k]), keep_i = deep_copy(*reg[i]);
			for (auto &x : *reg[k])
			{
				auto &b = std::get<1>(x);
				if (b.scalar_type() == torch::kBool) b.logical_not_();
				else b.add_(1);
			}
			if (dump_tensor(*reg[i]) != shown[i]) out.push_back(i + 1);
			reg[k].emplace(std::move(keep_k));
			reg[i].emplace(std::move(keep_i));
		}
		return out;
	}
	void script(const std::vector<json> &s, const std::function<void(const json &)> &emit)
	{
		for (auto &o : s)
		{
			json line = o;
			if (o["op"] == "begin")
			{
				sg = make_sig(o["sg"].get<ivec>());
				emit(line);
				continue;
			}
			json r;
			try
			{
				bool sc = call(o, r);
				line["st"] = sc ? "sc" : "ok";
				if (sc) line["r"] = r;
			}
			catch (std::exception &e)
			{
				line["st"] = "ex";
				line["what"] = std::string(e.what()).substr(0, 120);
			}
			json u = json::array();
			for (int i = 0; i < NR; ++i)
			{
				if (!reg[i]) continue;
				json now = dump_tensor(*reg[i]);
				if (now != shown[i]) { u.push_back(json::array({i + 1, now})); shown[i] = now; }
			}
			line["u"] = u;
			// copies and views share their blocks with their source, as torch tensors do: the results of such
			// calls are made independent.  Every other result must be independent already.
			static const std::set<std::string> sharing{"copy", "permute", "t", "transpose", "reshape", "reshape_as", "reshape_over", "view",
			                                           "squeeze", "squeezed", "conj", "conj_only", "inverse", "cvshift", "neutralsel", "neutralshape"};
			auto &t = reg[o["dst"].get<int>() - 1];
			if (sharing.count(o["op"].get<std::string>()) && t) { btensor c = deep_copy(*t); t.emplace(std::move(c)); }
			else if (t) line["shared"] = shared_with(o["dst"].get<int>() - 1);
			emit(line);
		}
	}
};

int main(int argc, char **argv)
{
	return run_scripts(argc, argv, [](const std::vector<json> &s, const std::function<void(const json &)> &emit) { Exec e; e.script(s, emit); });
}
