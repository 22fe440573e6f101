// Conformance driver: the sorted block map.
#include "qcommon.h"
#include "blockTensor/flat_map.h"

using quantit::flat_map;
namespace
{
constexpr int NR = 3;
// a value that shows when a moved-from object is read
struct Tracked
{
	int v = 0;
	Tracked() = default;
	explicit Tracked(int x) : v(x) {}
	Tracked(const Tracked &o) = default;
	Tracked(Tracked &&o) noexcept : v(o.v) { o.v = -99999; }
	Tracked &operator=(const Tracked &o) = default;
	Tracked &operator=(Tracked &&o) noexcept
	{
		if (&o != this) { v = o.v; o.v = -99999; }
		return *this;
	}
	bool operator==(const Tracked &o) const { return v == o.v; }
};
int &num(int &x) { return x; }
int &num(Tracked &x) { return x.v; }
int num(const int &x) { return x; }
int num(const Tracked &x) { return x.v; }

// the rule of an unsorted range receives the elements, the others the values
template <class A, class B>
decltype(auto) num(std::pair<A, B> &p) { return num(p.second); }
template <class A, class B>
int num(const std::pair<A, B> &p) { return num(p.second); }

struct IntK
{
	using Key = int; using Val = int; using Cmp = std::less<int>;
	static Key key(int k) { return k; }
	static int unkey(const Key &k) { return k; }
};
struct VecK
{
	using Key = std::vector<int>; using Val = Tracked; using Cmp = std::less<Key>;
	static Key key(int k) { int h = k >= 0 ? k / 3 : -((2 - k) / 3); return {h, k - 3 * h}; }
	static int unkey(const Key &k) { return k.size() == 2 ? 3 * k[0] + k[1] : 77777; }
};
struct RevK
{
	using Key = int; using Val = Tracked; using Cmp = std::greater<int>;
	static Key key(int k) { return -k; }
	static int unkey(const Key &k) { return -k; }
};

template <class K>
struct Store
{
	using Map = flat_map<typename K::Key, typename K::Val, typename K::Cmp>;
	using Val = typename K::Val;
	using P = typename Map::value_type;
	std::vector<Map> R = std::vector<Map>(NR);
	std::vector<json> seen = std::vector<json>(NR, json{{"l", json::array()}, {"ck", 1}});
	int calls = 0, fresh = 0;

	static P pr(int k, int v) { return P(K::key(k), Val(v)); }
	static std::vector<P> pairs(const json &ps)
	{
		std::vector<P> o;
		for (auto &p : ps) o.push_back(pr(p[0].get<int>(), p[1].get<int>()));
		return o;
	}
	static json shown(Map &x)
	{
		const Map &c = x;
		json l = json::array();
		auto el = [](const auto &p) { return json{K::unkey(p.first), num(p.second)}; };
		for (auto &p : c) l.push_back(el(p));
		bool ck = c.size() == l.size() && c.empty() == l.empty() && c.capacity() >= c.size();
		auto via = [&](auto b, auto e) { json o = json::array(); for (; b != e; ++b) o.push_back(el(*b)); return o; };
		ck &= via(x.begin(), x.end()) == l && via(c.cbegin(), c.cend()) == l && via(c.begin(), c.end()) == l;
		json r = l;
		std::reverse(r.begin(), r.end());
		ck &= via(x.rbegin(), x.rend()) == r && via(c.rbegin(), c.rend()) == r && via(c.crbegin(), c.crend()) == r;
		for (size_t i = 0; i < l.size(); ++i)
		{
			auto key = K::key(l[i][0].get<int>());
			ck &= c.contains(key) && c.count(key) == 1 && el(*x.find(key)) == l[i] && el(*c.find(key)) == l[i] && num(c.at(key)) == l[i][1].get<int>();
			ck &= el(x.begin()[i]) == l[i] && el(*(c.begin() + i)) == l[i] && (c.begin() + i) - c.begin() == static_cast<long>(i);
			if (i) ck &= c.key_comp()(K::key(l[i - 1][0].get<int>()), key) && c.value_comp()(*(c.begin() + (i - 1)), *(c.begin() + i)) && !c.value_comp()(*(c.begin() + i), *(c.begin() + (i - 1)));
		}
		return {{"l", l}, {"ck", ck ? 1 : 0}};
	}
	// the caller's rules
	auto col(const std::string &n)
	{
		return [this, n](auto &a, auto &b)
		{
			++calls;
			if (n == "add") num(a) += num(b);
			if (n == "lin") num(a) = ((3 * num(a) - num(b)) % 1009 + 1009) % 1009;
			if (n == "take") num(a) = num(b);
		};
	}
	auto nocol(const std::string &n)
	{
		return [this, n](auto &a) { ++fresh; if (n == "neg") num(a) = -num(a); };
	}
	void call(const json &o, json &out)
	{
		std::string op = o["op"];
		int m = o.value("m", 0);
		Map &D = R[o["dst"].get<int>() - 1];
		Map &A = R[o["a"].get<int>() - 1];
		Map &B = R[o["b"].get<int>() - 1];
		const Map &cA = A, &cB = B;
		auto X = [&](const char *n) { return o[n].get<int>(); };
		auto k = [&] { return K::key(X("k")); };
		auto v = [&] { return Val(X("v")); };
		auto pos = [&](auto it) { return static_cast<int>(it - A.begin()); };
		auto cpos = [&](auto it) { return static_cast<int>(it - cA.begin()); };
		calls = fresh = 0;
		auto pf = [&](auto r) { out["res"] = {pos(r.first), r.second ? 1 : 0}; };
		auto lvalk = k;
		if (op == "new")
		{
			auto ps = pairs(o["ps"]);
			switch (m % 7)
			{
			case 0: D = Map(ps.begin(), ps.end()); return;
			case 1: D = Map(ps); return;
			case 2: D = Map(std::move(ps)); return;
			case 3: { Map t(typename Map::size_type(3)); t.insert(ps.begin(), ps.end()); D = t; return; }
			case 4: { Map t{typename K::Cmp()}; for (auto &p : ps) t.insert(p); D = std::move(t); return; }
			case 5: D = Map(ps.begin(), ps.end(), typename K::Cmp(), std::allocator<P>()); return;
			default: {
				if (ps.size() == 0) { D = Map(std::initializer_list<P>{}); return; }
				if (ps.size() == 1) { D = Map{ps[0]}; return; }
				if (ps.size() == 2) { D = Map{ps[0], ps[1]}; return; }
				if (ps.size() == 3) { D = Map{ps[0], ps[1], ps[2]}; return; }
				D = Map(ps.rbegin(), ps.rend()); // the harness gives distinct keys here
				return; }
			}
		}
		if (op == "ilist")
		{
			auto ps = pairs(o["ps"]);
			if (ps.size() == 0) D = {};
			else if (ps.size() == 1) D = {ps[0]};
			else if (ps.size() == 2) D = {ps[0], ps[1]};
			else if (ps.size() == 3) D = {ps[0], ps[1], ps[2]};
			else D = {ps[0], ps[1], ps[2], ps[3]};
			return;
		}
		if (op == "copy") { if (m % 3 == 0) D = A; else if (m % 3 == 1) { Map t(A); D.swap(t); } else { Map t(A, std::allocator<P>()); D = std::move(t); } return; }
		if (op == "move") { if (m % 2) { Map t(std::move(A)); D = std::move(t); } else D = std::move(A); A.clear(); return; }
		if (op == "swap") { if (m % 2) A.swap(B); else { using std::swap; swap(A, B); } return; }
		if (op == "reserve") { A.reserve(X("x")); if (m % 3 == 0) A.shrink_to_fit(); return; }
		if (op == "ins")
		{
			auto p = pr(X("k"), X("v"));
			const auto &cp = p;
			if (m % 3 == 0) pf(A.insert(cp));
			else if (m % 3 == 1) pf(A.insert(std::move(p)));
			else pf(A.insert(std::pair<const typename K::Key, Val>(p.first, p.second)));
			return;
		}
		if (op == "insh")
		{
			auto p = pr(X("k"), X("v"));
			const auto &cp = p;
			auto h = cA.begin() + X("h");
			if (m % 3 == 0) out["res"] = {pos(A.insert(h, cp))};
			else if (m % 3 == 1) out["res"] = {pos(A.insert(h, std::move(p)))};
			else out["res"] = {pos(A.insert(h, std::pair<const typename K::Key, Val>(p.first, p.second)))};
			return;
		}
		if (op == "emp") { if (m % 2) pf(A.emplace(k(), v())); else pf(A.emplace(pr(X("k"), X("v")))); return; }
		if (op == "emph") { if (m % 2) pf(A.emplace(cA.begin() + X("h"), k(), v())); else pf(A.emplace(A.begin() + X("h"), k(), v())); return; }
		if (op == "tem") { const auto kk = k(); if (m % 2) pf(A.try_emplace(kk, X("v"))); else pf(A.try_emplace(k(), v())); return; }
		if (op == "temh") { const auto kk = k(); auto h = cA.begin() + X("h"); if (m % 2) pf(A.try_emplace(h, kk, X("v"))); else pf(A.try_emplace(h, k(), v())); return; }
		if (op == "ioa") { const auto kk = k(); const auto vv = v(); if (m % 2) pf(A.insert_or_assign(kk, vv)); else pf(A.insert_or_assign(k(), v())); return; }
		if (op == "ioah") { const auto kk = k(); const auto vv = v(); auto h = cA.begin() + X("h"); if (m % 2) out["res"] = {pos(A.insert_or_assign(h, kk, vv))}; else out["res"] = {pos(A.insert_or_assign(h, k(), v()))}; return; }
		if (op == "idx") { out["res"] = {num(A[k()])}; return; }
		if (op == "idxset") { A[k()] = v(); return; }
		if (op == "at") { out["res"] = {m % 2 ? num(A.at(k())) : num(cA.at(k()))}; return; }
		if (op == "atset") { A.at(k()) = v(); return; }
		if (op == "look")
		{
			if (m % 2)
			{
				auto e = A.equal_range(k());
				out["res"] = {pos(A.find(k())), A.count(k()), A.contains(k()) ? 1 : 0, pos(A.lower_bound(k())), pos(A.upper_bound(k())), pos(e.second) - pos(e.first)};
			}
			else
			{
				auto e = cA.equal_range(k());
				out["res"] = {cpos(cA.find(k())), cA.count(k()), cA.contains(k()) ? 1 : 0, cpos(cA.lower_bound(k())), cpos(cA.upper_bound(k())), cpos(e.second) - cpos(e.first)};
			}
			return;
		}
		if (op == "erase") { if (m % 2) out["res"] = {pos(A.erase(A.begin() + X("x")))}; else out["res"] = {pos(A.erase(cA.begin() + X("x")))}; return; }
		if (op == "eraser") { out["res"] = {pos(A.erase(cA.begin() + X("x"), cA.begin() + X("y")))}; return; }
		if (op == "erasek") { out["res"] = {A.erase(k())}; return; }
		if (op == "clear") { A.clear(); return; }
		if (op == "insr") // unsorted range
		{
			auto ps = pairs(o["ps"]);
			std::string c = o["c"];
			if (c == "keep" && m % 2) { A.insert(ps.begin(), ps.end()); return; }
			A.insert(ps.begin(), ps.end(), col(c));
			out["res"] = {calls};
			return;
		}
		if (op == "insm" || op == "merge") // sorted range of another map, whole map
		{
			std::string c = o["c"], n = o["n"];
			if (op == "insm")
			{
				auto f = cB.begin() + X("x"), l = cB.begin() + X("y");
				if (c == "keep" && n == "id" && m % 2) { A.insert(f, l); return; }
				if (n == "id" && m % 3) { A.insert(f, l, col(c)); out["res"] = {calls}; return; }
				if (m % 2) A.insert(f, l, col(c), nocol(n));
				else A.insert(B.begin() + X("x"), B.begin() + X("y"), col(c), nocol(n));
				out["res"] = {calls, fresh};
				return;
			}
			bool rv = X("rv");
			if (rv) { B.reserve(X("x")); if (X("x") == 0) B.shrink_to_fit(); }
			if (c == "keep" && n == "id" && m % 2) { if (rv) A.merge(std::move(B)); else A.merge(cB); }
			else if (n == "id" && m % 3) { if (rv) A.merge(std::move(B), col(c)); else A.merge(cB, col(c)); out["res"] = {calls}; }
			else { if (rv) A.merge(std::move(B), col(c), nocol(n)); else A.merge(cB, col(c), nocol(n)); out["res"] = {calls, fresh}; }
			if (rv) B.clear();
			return;
		}
		if (op == "eq") { out["res"] = {cA == cB ? 1 : 0, cA == cA ? 1 : 0}; return; }
		throw std::logic_error("unknown op " + op);
	}
	void run(const std::vector<json> &script, const std::function<void(const json &)> &emit)
	{
		for (auto &o : script)
		{
			json out = o;
			if (o["op"] != "begin")
			{
				out["st"] = "ok";
				out["res"] = json::array();
				try { call(o, out); }
				catch (std::exception &e) { out["st"] = "ex"; out["why"] = std::string(e.what()).substr(0, 80); }
				json u = json::array();
				for (int i = 0; i < NR; ++i)
				{
					json s = shown(R[i]);
					if (s != seen[i]) { u.push_back({i + 1, s}); seen[i] = s; }
				}
				out["u"] = u;
			}
			emit(out);
		}
	}
};
} // namespace
int main(int argc, char **argv)
{
	return run_scripts(argc, argv, [](const std::vector<json> &s, const std::function<void(const json &)> &emit)
	{
		int kt = s.at(0).value("kt", 0);
		if (kt == 0) { Store<IntK> st; st.run(s, emit); }
		else if (kt == 1) { Store<VecK> st; st.run(s, emit); }
		else { Store<RevK> st; st.run(s, emit); }
	});
}
