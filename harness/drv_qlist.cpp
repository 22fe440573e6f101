// Conformance driver: lists of type-erased charges.
#include "qcommon.h"
#include "Conserved/Composite/quantity_vector.h"
#include <map>

using namespace quantit;
using namespace quantit::conserved;
using vec = any_quantity_vector;

namespace
{
constexpr int NR = 4;
template <class T>
struct modulus { static constexpr int64_t value = 0; };
template <uint16_t N>
struct modulus<C<N>> { static constexpr int64_t value = N; };
template <class... T, size_t... I>
quantity<T...> cons(const ivec &r, std::index_sequence<I...>) { return quantity<T...>(T(static_cast<int16_t>(r[I]))...); }

struct Kind
{
	std::function<any_quantity(const ivec &)> make;
	std::function<vec(const std::vector<ivec> &, int)> list; // list built through the concrete type
};
template <class... T>
void reg(std::map<ivec, Kind> &m)
{
	using Q = quantity<T...>;
	using S = std::index_sequence_for<T...>;
	using V = quantity_vector<Q>;
	Kind k;
	auto one = [](const ivec &r) { return cons<T...>(r, S{}); };
	k.make = [=](const ivec &r) { return any_quantity(one(r)); };
	k.list = [=](const std::vector<ivec> &l, int form) -> vec
	{
		V v;
		for (auto &r : l) v.push_back(one(r));
		switch (form)
		{
		case 0: return vec(v);
		case 1: return vec(std::move(v));
		case 2: { const vquantity_vector &b = v; return vec(b); }
		case 3:
			if (l.size() == 1) return vec(std::initializer_list<Q>{one(l[0])});
			if (l.size() == 2) return vec(std::initializer_list<Q>{one(l[0]), one(l[1])});
			if (l.size() == 3) return vec(std::initializer_list<Q>{one(l[0]), one(l[1]), one(l[2])});
			return vec(v);
		case 4: { std::unique_ptr<vquantity_vector> p = std::make_unique<V>(v.begin(), v.end()); return vec(std::move(p)); }
		default: { V w(v.rbegin(), v.rend()); std::reverse(w.begin(), w.end()); return vec(w); }
		}
	};
	m[ivec{modulus<T>::value...}] = k;
}
const std::map<ivec, Kind> &kinds()
{
	static std::map<ivec, Kind> m = []
	{
		std::map<ivec, Kind> m;
		reg<Z>(m); reg<C<2>>(m); reg<C<5>>(m); reg<C<2>, Z>(m); reg<Z, Z>(m); reg<Z, Z, C<3>>(m); reg<Z, Z, Z, Z, Z>(m);
		return m;
	}();
	return m;
}
json charge_type(any_quantity_cref q)
{
	std::string t = to_string(q);
	json g = json::array();
	for (size_t i = 0; i + 1 < t.size(); ++i)
	{
		if (t[i] == 'Z' && t[i + 1] == '(') g.push_back(0);
		if (t[i] == 'C' && t[i + 1] == '<') g.push_back(std::strtol(t.c_str() + i + 2, nullptr, 10));
	}
	return g;
}
// the content through every accessor; ck tells whether they agree
json shown(vec &x)
{
	const vec &c = x;
	json l = json::array();
	bool ck = true;
	for (size_t i = 0; i < c.size(); ++i) l.push_back(read_charge(c[i]));
	auto via = [&](auto b, auto e)
	{
		json o = json::array();
		for (; b != e; ++b) o.push_back(read_charge(*b));
		return o;
	};
	ck &= via(c.begin(), c.end()) == l && via(x.begin(), x.end()) == l && via(c.cbegin(), c.cend()) == l;
	json r = l;
	std::reverse(r.begin(), r.end());
	ck &= via(c.rbegin(), c.rend()) == r && via(x.rbegin(), x.rend()) == r && via(c.crbegin(), c.crend()) == r;
	ck &= c.empty() == l.empty() && (c.end() - c.begin()) == static_cast<long>(l.size()) && (x.end() - x.begin()) == static_cast<long>(l.size());
	ck &= c.capacity() >= c.size();
	json g = json::array();
	for (size_t i = 0; i < l.size(); ++i)
	{
		auto b = x.begin(), e = x.end();
		auto cb = c.begin(), ce = c.end();
		ck &= json(read_charge(x[i])) == l[i] && json(read_charge(x.at(i))) == l[i] && json(read_charge(c.at(i))) == l[i];
		ck &= json(read_charge(*(b + i))) == l[i] && json(read_charge(*(e - (l.size() - i)))) == l[i] && json(read_charge(*(cb + i))) == l[i];
		ck &= json(read_charge(*(ce - (l.size() - i)))) == l[i] && json(read_charge(cb[i])) == l[i];
		ck &= (b + i) < e && (b + i) - b == static_cast<long>(i) && (cb + i) != ce && (cb + i) - cb == static_cast<long>(i);
		if (i == 0) g = charge_type(c[0]);
		ck &= charge_type(c[i]) == g;
	}
	if (!l.empty())
	{
		ck &= json(read_charge(c.front())) == l[0] && json(read_charge(x.front())) == l[0] && json(read_charge(c.back())) == l.back() &&
		      json(read_charge(x.back())) == l.back();
		ck &= json(read_charge(*c.data())) == l[0] && json(read_charge(*x.data())) == l[0];
	}
	return {{"l", l}, {"g", g}, {"ck", ck ? 1 : 0}};
}
struct Store
{
	std::vector<vec> R = std::vector<vec>(NR);
	std::vector<json> seen = std::vector<json>(NR, json{{"l", json::array()}, {"g", json::array()}, {"ck", 1}});

	void call(const json &o, json &out)
	{
		std::string op = o["op"];
		int m = o.value("m", 0);
		auto &D = R[o["dst"].get<int>() - 1];
		auto &A = R[o["a"].get<int>() - 1];
		auto &B = R[o["b"].get<int>() - 1];
		const vec &cA = A, &cB = B;
		auto q = [&]() { return kinds().at(o["g"].get<ivec>()).make(o["r"].get<ivec>()); };
		auto x = [&]() { return o["x"].get<size_t>(); };
		auto y = [&]() { return o["y"].get<size_t>(); };
		auto z = [&]() { return o["z"].get<size_t>(); };
		auto pos = [&](auto it) { out["res"] = it - A.begin(); };
		if (op == "null") { D = vec(); return; }
		if (op == "make") { D = vec(x(), q()); return; }
		if (op == "list") { D = kinds().at(o["g"].get<ivec>()).list(o["rs"].get<std::vector<ivec>>(), m); return; }
		if (op == "mixed")
		{ // an initializer list of type-erased charges
			std::vector<any_quantity> l;
			for (auto &e : o["rs"]) l.push_back(kinds().at(e[0].get<ivec>()).make(e[1].get<ivec>()));
			if (l.empty()) D = vec(std::initializer_list<any_quantity>{});
			else if (l.size() == 1) D = vec({l[0]});
			else if (l.size() == 2) D = vec({l[0], l[1]});
			else D = vec({l[0], l[1], l[2]});
			return;
		}
		if (op == "copy") { if (m % 2) { vec t(cA); D = std::move(t); } else D = cA; return; }
		if (op == "move") { if (m % 2) { vec t(std::move(A)); A = vec(); D = std::move(t); } else { D = std::move(A); A = vec(); } return; }
		if (op == "push") { A.push_back(q()); return; }
		if (op == "pushself") { if (A.size()) { A.push_back(cA[x() % A.size()]); } return; }
		if (op == "pop") { A.pop_back(); return; }
		if (op == "ins") { pos(A.insert(cA.begin() + x(), q())); return; }
		if (op == "insself") { pos(A.insert(cA.begin() + x(), cA[y()])); return; }
		if (op == "insn") { pos(A.insert(cA.begin() + x(), y(), q())); return; }
		if (op == "insr")
		{
			vec src(cB); // the range must not belong to the list itself
			const vec &cs = src;
			if (m % 2) pos(A.insert(cA.begin() + x(), cs.begin() + y(), cs.begin() + z()));
			else { if (&A != &B) pos(A.insert(cA.begin() + x(), cB.begin() + y(), cB.begin() + z())); else pos(A.insert(cA.begin() + x(), cs.begin() + y(), cs.begin() + z())); }
			return;
		}
		if (op == "insrr")
		{
			vec src(cB);
			const vec &cs = src;
			pos(A.insert(cA.begin() + x(), cs.rbegin() + y(), cs.rbegin() + z()));
			return;
		}
		if (op == "erase") { pos(A.erase(cA.begin() + x())); return; }
		if (op == "eraser") { pos(A.erase(cA.begin() + x(), cA.begin() + y())); return; }
		if (op == "clear") { A.clear(); return; }
		if (op == "resize") { A.resize(x()); return; }
		if (op == "resizev") { A.resize(x(), q()); return; }
		if (op == "reserve") { if (m % 2) A.reserve(x()); else A.shrink_to_fit(); return; }
		if (op == "swap") { if (m % 2) A.swap(B); else quantit::swap(A, B); return; }
		if (op == "set")
		{
			auto v = q();
			any_quantity_cref cv = v.get();
			switch (m % 4)
			{
			case 0: A[x()] = cv; break;
			case 1: A.at(x()) = cv; break;
			case 2: *(A.begin() + x()) = cv; break;
			default: if (x() == 0) A.front() = cv; else if (x() + 1 == A.size()) A.back() = cv; else A[x()] = cv; break;
			}
			return;
		}
		if (op == "mulat") { A[x()] *= cB[y()]; return; }
		if (op == "invat") { A[x()].inverse_(); return; }
		if (op == "at") { out["res"] = read_charge(m % 2 ? cA.at(x()) : A.at(x())); return; }
		if (op == "eq") { bool e = cA == cB; bool n = cA != cB; out["res"] = {e ? 1 : 0, n ? 1 : 0}; return; }
		if (op == "perm")
		{
			auto p = o["p"].get<ivec>(), rep = o["q"].get<ivec>();
			D = cA.permute(p.data(), p.data() + p.size(), rep);
			return;
		}
		throw std::logic_error("unknown op " + op);
	}
	void run(const std::vector<json> &script, const std::function<void(const json &)> &emit)
	{
		for (auto &o : script)
		{
			json out = o;
			if (o["op"] != "begin")
			{
				out["st"] = "ok";
				try { call(o, out); }
				catch (std::exception &e) { out["st"] = "ex"; out["why"] = std::string(e.what()).substr(0, 80); }
			}
			json u = json::array();
			for (int i = 0; i < NR; ++i)
			{
				json s = shown(R[i]);
				if (s != seen[i]) { u.push_back({i + 1, s}); seen[i] = s; }
			}
			if (o["op"] != "begin") out["u"] = u;
			emit(out);
		}
	}
};
} // namespace
int main(int argc, char **argv)
{
	return run_scripts(argc, argv, [](const std::vector<json> &s, const std::function<void(const json &)> &emit) { Store st; st.run(s, emit); });
}
