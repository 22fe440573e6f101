// Conformance driver: charges (concrete products and type-erased).
#include "qcommon.h"
#include <map>

using namespace quantit;
using namespace quantit::conserved;

namespace
{
constexpr int NR = 5;
struct Kind
{
	std::function<any_quantity(const ivec &)> make;
	std::function<json(const ivec &, const ivec &)> pair; // every public function of the concrete product
	std::function<json(const ivec &, const ivec &)> grp;  // same for the first simple group alone
};
template <class T>
struct modulus { static constexpr int64_t value = 0; };
template <uint16_t N>
struct modulus<C<N>> { static constexpr int64_t value = N; };

template <class... T, size_t... I>
quantity<T...> cons(const ivec &r, std::index_sequence<I...>) { return quantity<T...>(T(static_cast<int16_t>(r[I]))...); }
int64_t cap(int64_t d) { return d > 400000000 ? -1 : d; } // the specification works with 32 bit integers
int64_t sq(double d) { return cap(std::llround(d * d)); }
json val(any_quantity_cref q) { return read_charge(q); }

template <class G>
json group_pair(int64_t r1, int64_t r2)
{
	G a(static_cast<int16_t>(r1)), b(static_cast<int16_t>(r2));
	json o;
	auto v = [](const G &g) { return static_cast<int64_t>(g.get_val()); };
	o["v"] = {v(a), v(b)};
	std::vector<G> c = {a * b, a + b, G(a) *= b, G(a) += b, G(a).op(b), G(a).op(b, true), conserved::op(a, b)};
	o["c"] = json::array();
	for (auto &x : c) o["c"].push_back(v(x));
	o["k"] = {v(G(a).op(b, false))};
	o["i"] = {v(a.inverse()), v(G(a).inverse_())};
	o["n"] = {v(G())};
	G x(a), y(b);
	x.swap(y);
	conserved::swap(x, y);
	conserved::swap(x, y);
	o["s"] = {v(x), v(y)};
	o["r"] = {a == b, a != b, a < b, a > b};
	o["d"] = {cap(a.distance2(b)), cap(conserved::distance2(a, b)), sq(a.distance(b)), sq(conserved::distance(a, b))};
	auto ab = a * b;
	auto d = b;
	d = a;
	auto self = a;
	self *= self;
	o["z"] = {v(ab), v(d), v(self)};
	return o;
}
template <class... T>
Kind kind()
{
	using Q = quantity<T...>;
	using S = std::index_sequence_for<T...>;
	Kind k;
	k.make = [](const ivec &r) { return any_quantity(cons<T...>(r, S{})); };
	k.grp = [](const ivec &r1, const ivec &r2) { return group_pair<std::tuple_element_t<0, std::tuple<T...>>>(r1[0], r2[0]); };
	k.pair = [](const ivec &r1, const ivec &r2)
	{
		auto a = cons<T...>(r1, S{}), b = cons<T...>(r2, S{});
		json o;
		auto v = [](const vquantity &q) { return val(q); };
		o["v"] = {v(a), v(b)};
		auto c = json::array();
		{ c.push_back(v(a * b)); }
		{ auto t = b; c.push_back(v(a * std::move(t))); }
		{ c.push_back(v(a + b)); }
		{ auto t = b; c.push_back(v(a + std::move(t))); }
		{ auto t = a; c.push_back(v(t *= b)); c.push_back(v(t)); }
		{ auto t = a; c.push_back(v(t += b)); c.push_back(v(t)); }
		{ auto t = a; c.push_back(v(t.op(b))); c.push_back(v(t)); }
		{ auto t = a; c.push_back(v(t.op(b, true))); c.push_back(v(t)); }
		{ auto t = b; a.op_to(t); c.push_back(v(t)); }
		o["c"] = c;
		{ auto t = a; t.op(b, false); o["k"] = {v(t)}; }
		{ auto t = a; o["i"] = {v(t.inverse()), v(t.inv()), v(t.inverse_()), v(t)}; }
		o["n"] = {v(Q()), v(a.neutral())};
		{ auto x = a, y = b; x.swap(y); o["s"] = {v(y), v(x)}; }
		o["r"] = {a == b, a != b, a < b, a > b};
		o["d"] = {cap(a.distance2(b)), sq(a.distance(b))};
		auto d = b;
		d = a;
		auto self = a;
		self.op(self);
		auto e = a;
		e *= b;
		o["z"] = {v(e), v(d), v(self)};
		return o;
	};
	return k;
}
template <class... T>
void reg(std::map<ivec, Kind> &m) { m[ivec{modulus<T>::value...}] = kind<T...>(); }
const std::map<ivec, Kind> &kinds()
{
	static std::map<ivec, Kind> m = []
	{
		std::map<ivec, Kind> m;
		reg<Z>(m); reg<C<1>>(m); reg<C<2>>(m); reg<C<3>>(m); reg<C<4>>(m); reg<C<5>>(m); reg<C<6>>(m); reg<C<7>>(m);
		reg<C<100>>(m); reg<C<32767>>(m); reg<C<32768>>(m); reg<C<60001>>(m);
		reg<Z, Z>(m); reg<C<2>, Z>(m); reg<Z, C<2>>(m); reg<C<3>, Z>(m); reg<C<2>, C<3>>(m); reg<C<4>, C<6>>(m);
		reg<Z, Z, C<2>>(m); reg<Z, Z, C<3>>(m); reg<C<2>, Z, C<5>>(m); reg<Z, C<60001>>(m); reg<C<2>, C<2>>(m);
		return m;
	}();
	return m;
}
json shown(any_quantity_cref q)
{
	std::string t = to_string(q);
	ivec g;
	for (size_t i = 0; i + 1 < t.size(); ++i)
	{
		if (t[i] == 'Z' && t[i + 1] == '(') g.push_back(0);
		if (t[i] == 'C' && t[i + 1] == '<') g.push_back(std::strtol(t.c_str() + i + 2, nullptr, 10));
	}
	return {{"g", g}, {"q", read_charge(q)}};
}

struct Store
{
	std::vector<any_quantity> R = std::vector<any_quantity>(NR);
	std::vector<json> seen = std::vector<json>(NR, json{{"g", {1}}, {"q", {0}}});

	void call(const json &o, json &out)
	{
		std::string op = o["op"];
		int m = o.value("m", 0);
		auto &D = R[o["dst"].get<int>() - 1];
		auto &A = R[o["a"].get<int>() - 1];
		auto &B = R[o["b"].get<int>() - 1];
		const any_quantity &cA = A, &cB = B;
		any_quantity_cref vA = cA.get(), vB = cB.get();
		if (op == "make") { D = any_quantity_cref(kinds().at(o["g"].get<ivec>()).make(o["r"].get<ivec>())); return; }
		if (op == "trivial") { D = any_quantity_cref(any_quantity().get()); return; }
		if (op == "copy")
		{
			if (m == 0) D = cA;                       // copy assignment
			else if (m == 1) D = vA;                  // from a reference
			else if (m == 2) { any_quantity t(cA); D = std::move(t); }
			else { any_quantity t(vA); any_quantity_ref r = t; D = r; }
			return;
		}
		if (op == "mul")
		{
			any_quantity r;
			switch (m)
			{
			case 0: r = vA * vB; break;
			case 1: r = vA + vB; break;
			case 2: r = vA * any_quantity(cB); break;
			case 3: r = any_quantity(cA) * vB; break;
			case 4: r = any_quantity(cA) * any_quantity(cB); break;
			case 5: r = vA + any_quantity(cB); break;
			case 6: r = any_quantity(cA) + vB; break;
			default: r = any_quantity(cA) + any_quantity(cB); break;
			}
			D = any_quantity_cref(r.get());
			return;
		}
		if (op == "mul_")
		{
			switch (m)
			{
			case 0: A *= vB; break;
			case 1: A += vB; break;
			case 2: A.op(vB, true); break;
			case 3: A.get().op(vB); break;
			case 4: A.get().op(vB, true); break;
			case 5: vB.op_to(A.get()); break;
			case 6: A.get() *= vB; break;
			default: A.get() += vB; break;
			}
			return;
		}
		if (op == "opif") { if (m % 2) A.op(vB, o["x"] == 1); else A.get().op(vB, o["x"] == 1); return; }
		if (op == "inv")
		{
			any_quantity r;
			switch (m % 4)
			{
			case 0: r = cA.inverse(); break;
			case 1: r = any_quantity(cA).inverse(); break;
			case 2: r = vA.inverse(); break;
			default: r = vA.inv(); break;
			}
			D = any_quantity_cref(r.get());
			return;
		}
		if (op == "inv_") { if (m % 3 == 0) A.inverse_(); else if (m % 3 == 1) A.get().inverse_(); else A.get().inv_(); return; }
		if (op == "neutral") { any_quantity r = m % 2 ? cA.neutral() : vA.neutral(); D = any_quantity_cref(r.get()); return; }
		if (op == "swap") { if (m % 2) A.swap(B); else quantit::swap(A, B); return; }
		if (op == "swapref") { any_quantity_ref rb = B; if (m % 2) A.swap(rb); else A.get().swap(rb); return; }
		if (op == "setref") { any_quantity_ref ra = A; ra = vB; return; }
		if (op == "rel")
		{
			out["r"] = {vA == vB ? 1 : 0, vA != vB ? 1 : 0, vA < vB ? 1 : 0, vA > vB ? 1 : 0, cap(distance2(vA, vB)), sq(distance(vA, vB)),
			            cap(vA.distance2(vB)), sq(vA.distance(vB))};
			return;
		}
		if (op == "same") { out["r"] = {vA.same_type(vB) ? 1 : 0, vB.same_type(vA) ? 1 : 0}; return; }
		if (op == "vec") { auto l = vA.make_vector(o["x"].get<size_t>()); json a = json::array(); for (size_t i = 0; i < l->size(); ++i) a.push_back(read_charge((*l)[i])); out["r"] = a; return; }
		if (op == "pair" || op == "grp")
		{
			auto &k = kinds().at(o["g"].get<ivec>());
			json r = op == "pair" ? k.pair(o["p"].get<ivec>(), o["q"].get<ivec>()) : k.grp(o["p"].get<ivec>(), o["q"].get<ivec>());
			for (auto &x : r["r"]) x = x.get<bool>() ? 1 : 0;
			out["r"] = r;
			return;
		}
		throw std::logic_error("unknown op " + op);
	}
	void run(const std::vector<json> &script, const std::function<void(const json &)> &emit)
	{
		for (auto &o : script)
		{
			json out = o;
			if (o["op"] != "begin")
			{
				out["st"] = "ok";
				try { call(o, out); }
				catch (std::exception &e) { out["st"] = "ex"; out["why"] = std::string(e.what()).substr(0, 80); }
			}
			json u = json::array();
			for (int i = 0; i < NR; ++i)
			{
				json s = shown(R[i]);
				if (s != seen[i]) { u.push_back({i + 1, s}); seen[i] = s; }
			}
			if (o["op"] != "begin") out["u"] = u;
			emit(out);
		}
	}
};
} // namespace
int main(int argc, char **argv)
{
	return run_scripts(argc, argv, [](const std::vector<json> &s, const std::function<void(const json &)> &emit) { Store st; st.run(s, emit); });
}
