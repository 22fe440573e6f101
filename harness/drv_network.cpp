// Conformance driver: tensor networks, plain and by blocks (spec/NetStore.tla, spec/CanonStore.tla).
#include "qcommon.h"
#include "LinearAlgebra.h"
#include "MPT.h"
#include "blockTensor/LinearAlgebra.h"
#include "dmrg.h"
#include <variant>

using namespace quantit;
using torch::Tensor;
namespace
{
constexpr int NR = 3;

json dump_site(const btensor &t, const ivec &) { json j = dump_tensor(t); if (j["t"] == "d" && t.options().dtype() == caffe2::TypeMeta::Make<c10::complex<double>>()) j["t"] = "c"; return j; }
// a plain tensor in the same notation: one neutral section for each dimension
json dump_site(const Tensor &t, const ivec &neutral)
{
	json d = json::array(), b = json::array({json::array()}), v = json::array(), w = json::array();
	if (!t.defined()) return json{{"d", d}, {"s", neutral}, {"v", v}, {"w", w}, {"b", b}, {"t", "?"}, {"ck", 1}};
	for (auto n : t.sizes()) { d.push_back(json::array({json::array({n, neutral})})); b[0].push_back(0); }
	bool cplx = t.is_complex(), iv = true;
	auto z = t.to(torch::kComplexDouble).contiguous();
	auto re = torch::real(z).contiguous(), im = torch::imag(z).contiguous();
	for (int64_t i = 0; i < z.numel(); ++i)
	{
		int64_t a, c;
		iv &= to_int(re.data_ptr<double>()[i], a);
		iv &= to_int(im.data_ptr<double>()[i], c);
		v.push_back(a);
		if (cplx) w.push_back(c);
	}
	auto ty = t.scalar_type();
	json j{{"d", d}, {"s", neutral}, {"v", v}, {"w", w}, {"b", b}, {"t", cplx ? "c" : ty == torch::kDouble ? "d" : "?"}, {"ck", 1}};
	if (!iv) j["iv"] = 0;
	return j;
}
struct Plain { using Tens = Tensor; using MPT = quantit::MPT; using MPS = quantit::MPS; using MPO = quantit::MPO; };
struct Block { using Tens = btensor; using MPT = quantit::bMPT; using MPS = quantit::bMPS; using MPO = quantit::bMPO; };
void coalesce(quantit::bMPO &x, double c, int m) { if (m == 1 && c == 0) x.coalesce(); else x.coalesce(btensor::Scalar(c)); }
void coalesce(quantit::MPO &, double, int) { throw std::logic_error("driver: no such call"); }

template <class F> struct Store
{
	using Tens = typename F::Tens;
	using MPT = typename F::MPT;
	using MPS = typename F::MPS;
	using MPO = typename F::MPO;
	using Net = std::variant<std::monostate, MPT, MPS, MPO>;
	Sig sg;
	ivec neutral;
	bool dense; // networks are shown as the values they stand for
	std::vector<Net> R = std::vector<Net>(NR);
	std::vector<json> shown = std::vector<json>(NR, json{{"k", "0"}});
	explicit Store(const json &b) : sg(make_sig(b["sg"].template get<ivec>())), neutral(sg.mod.size(), 0), dense(b["ob"] == "den") {}

	Tens site(const json &o, int m)
	{
		json t = o;
		t["bl"] = o["b"];
		if constexpr (std::is_same_v<Tens, btensor>) return build_tensor(sg, t, m);
		else
		{
			auto x = dense_from(o["v"], o["w"], shape_of(o["d"]));
			if (o["t"] == "c") x = x.to(torch::kComplexDouble);
			return m == 1 ? relayout(x) : x;
		}
	}
	std::vector<Tens> sites(const json &l, int m)
	{
		std::vector<Tens> out;
		for (auto &o : l) out.push_back(site(o, m));
		return out;
	}
	// every way of looking at the sequence shows the same tensors
	template <class N> bool consistent(const N &n)
	{
		N &x = const_cast<N &>(n);
		const size_t z = n.size();
		bool ok = n.empty() == (z == 0) && size_t(n.end() - n.begin()) == z && size_t(x.end() - x.begin()) == z &&
		          size_t(n.cend() - n.cbegin()) == z && size_t(n.rend() - n.rbegin()) == z && n.capacity() >= z && n.max_size() >= z;
		auto same = [](const Tens &a, const Tens &b) { return &a == &b; };
		for (size_t i = 0; ok && i < z; ++i)
			ok = same(n[i], n.at(i)) && same(x[i], x.at(i)) && same(n[i], x[i]) && same(n[i], *(n.begin() + i)) && same(n[i], *(x.begin() + i)) &&
			     same(n[i], *(n.cbegin() + i)) && same(n[i], *(n.rbegin() + (z - 1 - i))) && same(n[i], *(x.rbegin() + (z - 1 - i))) && same(n[i], *(n.data() + i)) &&
			     same(n[i], *(n.crbegin() + (z - 1 - i)));
		if (ok && z) ok = same(n.front(), n[0]) && same(n.back(), n[z - 1]) && same(x.front(), n[0]) && same(x.back(), n[z - 1]);
		for (size_t i : {z, z + 3, size_t(-1)})
		{
			bool thrown = false;
			try { n.at(i); } catch (std::out_of_range &) { thrown = true; }
			ok = ok && thrown;
		}
		return ok;
	}
	json view(const Net &n)
	{
		if (n.index() == 0) return json{{"k", "0"}};
		return std::visit([&](const auto &x) -> json {
			using N = std::decay_t<decltype(x)>;
			if constexpr (std::is_same_v<N, std::monostate>) return json{{"k", "0"}};
			else
			{
				json j{{"k", std::is_same_v<N, MPT> ? "T" : std::is_same_v<N, MPS> ? "S" : "O"}, {"oc", 0}, {"ck", consistent(x) ? 1 : 0}};
				if constexpr (std::is_same_v<N, MPS>) { size_t oc = x.orthogonality_center; j["oc"] = int64_t(oc) > 100000 || int64_t(oc) < -100000 ? 99999 : int64_t(oc); }
				json l = json::array();
				for (auto &t : x) l.push_back(dump_site(t, neutral));
				if (!dense) { j["ts"] = l; return j; }
				for (auto &t : l) { t.erase("v"); t.erase("w"); t.erase("iv"); }
				j["st"] = l;
				json dl = json::array(), dr = json::array();
				const int r = std::is_same_v<N, MPS> ? 3 : 4;
				Tensor A;
				bool shaped = x.size() > 0;
				for (auto &t : x)
				{
					Tensor d = densified(t);
					if (d.dim() != r) { shaped = false; break; }
					if (r == 4) d = d.permute({0, 1, 3, 2});
					auto left = d.reshape({-1, d.size(-1)}), right = d.reshape({d.size(0), -1});
					dl.push_back(defect(left.t().conj().matmul(left)));
					dr.push_back(defect(right.matmul(right.t().conj())));
					if (!A.defined()) { A = d; continue; }
					if (A.size(-1) != d.size(0)) { shaped = false; break; }
					A = A.reshape({-1, d.size(0)}).matmul(right);
					A = A.reshape({-1, d.size(-1)});
				}
				bool iv = shaped;
				json v = json::array(), w = json::array();
				if (shaped)
				{
					auto re = torch::real(A).contiguous(), im = torch::imag(A).contiguous();
					for (int64_t i = 0; i < re.numel(); ++i)
					{
						int64_t a, c;
						iv &= to_int(re.data_ptr<double>()[i], a);
						iv &= to_int(im.data_ptr<double>()[i], c);
						v.push_back(a);
						w.push_back(c);
					}
				}
				j["v"] = v; j["w"] = w; j["iv"] = iv ? 1 : 0; j["dl"] = dl; j["dr"] = dr;
				return j;
			}
		}, n);
	}
	static int64_t defect(const Tensor &g)
	{
		if (g.numel() == 0) return 0;
		double x = (g - torch::eye(g.size(0), torch::kComplexDouble)).abs().max().template item<double>() * 1e9;
		return x < 1e9 ? int64_t(x) : 1000000000;
	}
	template <class N> static N taken(const N &a, int m)
	{
		if (m == 0) return N(a);
		if (m == 1) { N t; t = a; return t; }
		if (m == 2) { N t(a); N u(std::move(t)); return u; }
		N t(a), u; u = std::move(t); N &v = u; u = v; return u;
	}
	MPT mpt(std::vector<Tens> v, int m)
	{
		if (m == 0) return MPT(std::move(v));
		if (m == 1) { MPT t; for (auto &x : v) t.push_back(x); return t; }
		if (m == 2) { MPT t; for (auto &x : v) t.emplace_back(x); return t; }
		return v.empty() ? MPT() : MPT(v.cbegin(), v.cend());
	}
	Net made(const std::string &k, const json &ts, int64_t oc, int m)
	{
		auto v = sites(ts, m % 3);
		auto pos = static_cast<size_t>(oc);
		if (k == "T") return mpt(v, m % 4);
		if (k == "S")
		{
			if (m == 0) return oc == 0 ? MPS(v) : MPS(v, pos);
			if (m == 1) { MPT t = mpt(v, 0); return MPS(t, pos); }
			if (m == 2) { MPT t = mpt(v, 1); return MPS(std::move(t), pos); }
			if (m == 3 && v.size() == 1) return MPS({v[0]}, pos);
			if (m == 3 && v.size() == 2) return MPS({v[0], v[1]}, pos);
			if (m == 3 && v.size() == 3) return MPS({v[0], v[1], v[2]}, pos);
			if (m == 4 && oc == 0) return MPS(v.cbegin(), v.cend());
			return MPS(v, pos);
		}
		if (m == 0) return MPO(v);
		if (m == 1) { MPT t = mpt(v, 0); return MPO(t); }
		if (m == 2) { MPT t = mpt(v, 1); return MPO(std::move(t)); }
		if (m == 3 && v.size() == 1) return MPO({v[0]});
		if (m == 3 && v.size() == 2) return MPO({v[0], v[1]});
		if (m == 3 && v.size() == 3) return MPO({v[0], v[1], v[2]});
		if (m == 4) return MPO(v.cbegin(), v.cend());
		return MPO(v);
	}
	static std::pair<double, double> value(const Tensor &t) { auto z = t.to(torch::kComplexDouble).reshape({-1}); if (z.numel() != 1) throw std::logic_error("not a scalar"); auto c = z[0].item().toComplexDouble(); return {c.real(), c.imag()}; }
	static std::pair<double, double> value(const btensor &t) { if (t.dim()) throw std::logic_error("not a scalar"); return value(densified(t)); }
	template <class N> N &get(int i) { return std::get<N>(R[i]); }
	template <class N> void edit(N &x, const json &o, json &line)
	{
		const std::string op = o["op"];
		const int m = o["m"];
		const int64_t i = o.value("x", 0), n = o.value("y", 0);
		auto t = [&]() { return site(o["t"], m % 3); };
		auto it = [&](int64_t p) { return x.cbegin() + p; };
		if (op == "put")
		{
			if (m == 0) x[i] = t();
			else if (m == 1) x.at(i) = t();
			else if (m == 2) *(x.begin() + i) = t();
			else { if (i == 0) x.front() = t(); else if (i + 1 == int64_t(x.size())) x.back() = t(); else *(x.data() + i) = t(); }
		}
		else if (op == "insert")
		{
			auto v = t();
			if (m == 0) x.insert(it(i), v);
			else if (m == 1) x.insert(it(i), std::move(v));
			else if (m == 2) x.emplace(it(i), v);
			else x.insert(it(i), {v});
		}
		else if (op == "inserts")
		{
			std::vector<Tens> v(n, t());
			if (m % 2) x.insert(it(i), size_t(n), t()); else x.insert(it(i), v.begin(), v.end());
		}
		else if (op == "erase") { if (m % 2) x.erase(it(i)); else x.erase(it(i), it(i + 1)); }
		else if (op == "erases") x.erase(it(i), it(n));
		else if (op == "push")
		{
			auto v = t();
			if (m == 0) x.push_back(v);
			else if (m == 1) x.push_back(std::move(v));
			else if (m == 2) x.emplace_back(v);
			else x.insert(x.cend(), v);
		}
		else if (op == "pop") x.pop_back();
		else if (op == "resize") x.resize(n, t());
		else if (op == "clear") x.clear();
		else if (op == "reserve") { x.reserve(n); if (int64_t(x.capacity()) < n) throw std::logic_error("capacity"); x.shrink_to_fit(); }
		else if (op == "to")
		{
			auto ty = o["y"] == 1 ? torch::kComplexDouble : torch::kDouble;
			int dst = o["dst"].template get<int>() - 1, a = o["a"].template get<int>() - 1;
			auto conv = [&]() {
				if (m == 0) return x.to(ty);
				if (m == 1) return x.to(torch::TensorOptions().dtype(ty));
				if (m == 2) return x.to(torch::scalarTypeToTypeMeta(ty));
				return x.to(torch::Device(torch::kCPU), ty);
			};
			if (dst != a) R[dst] = conv();
			else { auto &r = m == 0 ? x.to_(ty) : m == 1 ? x.to_(torch::TensorOptions().dtype(ty)) : x.to_(torch::scalarTypeToTypeMeta(ty)); if (&r != &x) throw std::logic_error("to_ returned another network"); }
		}
		else throw std::logic_error("driver: unknown operation " + op);
	}
	void call(const json &o, json &line)
	{
		const std::string op = o["op"];
		const int m = o["m"], a = o["a"].template get<int>() - 1, b = o["b"].template get<int>() - 1, dst = o["dst"].template get<int>() - 1;
		const int64_t x = o.value("x", 0);
		if (op == "make") { R[dst] = made(o["k"], o["ts"], x, m); return; }
		if (op == "fill")
		{
			auto t = site(o["t"], m % 3);
			size_t n = o["y"].template get<int64_t>();
			if (o["k"] == "S") R[dst] = x == 0 && m == 1 ? MPS(n, t) : MPS(n, t, static_cast<size_t>(x));
			else if (o["k"] == "O") R[dst] = MPO(n, t);
			else R[dst] = MPT(n, t);
			return;
		}
		if (op == "copy")
		{
			Net c = std::visit([&](auto &y) -> Net { using N = std::decay_t<decltype(y)>; if constexpr (std::is_same_v<N, std::monostate>) return y; else return taken<N>(y, m); }, R[a]);
			R[dst] = std::move(c);
			return;
		}
		if (op == "swap")
		{
			if (R[a].index() != R[b].index()) throw std::logic_error("driver: swap of different kinds");
			std::visit([&](auto &y) { using N = std::decay_t<decltype(y)>;
				if constexpr (!std::is_same_v<N, std::monostate>) { using std::swap; N &z = std::get<N>(R[b]); if (m % 2) swap(y, z); else y.swap(z); } }, R[a]);
			return;
		}
		if (op == "conv")
		{
			const std::string k = o["k"];
			if (k == "T")
			{
				if (std::holds_alternative<MPS>(R[a])) { MPS s = get<MPS>(a); R[dst] = static_cast<MPT>(s); }
				else if (std::holds_alternative<MPO>(R[a])) { MPO s = get<MPO>(a); R[dst] = static_cast<MPT>(s); }
				else R[dst] = MPT(get<MPT>(a));
			}
			else if (k == "S") { MPT t = get<MPT>(a); Net r = m % 2 ? MPS(t, static_cast<size_t>(x)) : MPS(std::move(t), static_cast<size_t>(x)); R[dst] = r; }
			else { MPT t = get<MPT>(a); Net r = m % 2 ? MPO(t) : MPO(std::move(t)); R[dst] = r; }
			return;
		}
		if (op == "check")
		{
			line["r"] = std::holds_alternative<MPS>(R[a]) ? int(get<MPS>(a).check_ranks()) : int(get<MPO>(a).check_ranks());
			return;
		}
		if (op == "move") { get<MPS>(a).move_oc(x); return; }
		if (op == "coalesce") { coalesce(get<MPO>(a), x * 1e-9, m); return; }
		if (op == "contract")
		{
			const MPS &A = get<MPS>(a), &B = get<MPS>(b);
			int c = o["c"].template get<int>() - 1;
			bool edges = o.contains("le");
			auto r = [&]() {
				if (c < 0 && !edges) return contract(A, B);
				if (c < 0) return contract(A, B, site(o["le"], m % 3), site(o["re"], 0));
				if (!edges) return contract(A, B, get<MPO>(c));
				return contract(A, B, get<MPO>(c), site(o["le"], m % 3), site(o["re"], 0));
			}();
			auto [re, im] = value(r);
			int64_t p, q;
			bool iv = to_int(re, p);
			iv &= to_int(im, q);
			line["r"] = json::array({p, q});
			line["iv"] = iv ? 1 : 0;
			return;
		}
		if (op == "two") { R[dst] = details::compute_2sitesHamil(get<MPO>(a)); return; }
		if (op == "h2s")
		{
			const MPT &t = get<MPT>(a);
			std::vector<Tens> v{details::hamil2site_times_state(t[0], t[1], t[2], t[3])};
			R[dst] = MPT(std::move(v));
			return;
		}
		std::visit([&](auto &y) { using N = std::decay_t<decltype(y)>; if constexpr (!std::is_same_v<N, std::monostate>) edit<N>(y, o, line); else throw std::logic_error("driver: no network"); }, R[a]);
	}
	void script(const std::vector<json> &s, const std::function<void(const json &)> &emit)
	{
		for (auto &o : s)
		{
			json line = o;
			if (o["op"] == "begin") { emit(line); continue; }
			try { call(o, line); line["st"] = "ok"; }
			catch (std::exception &e) { line["st"] = "ex"; line["what"] = std::string(e.what()).substr(0, 160); }
			json u = json::array();
			for (int i = 0; i < NR; ++i)
			{
				json now = view(R[i]);
				if (now != shown[i]) { u.push_back(json::array({i + 1, now})); shown[i] = now; }
			}
			line["u"] = u;
			emit(line);
		}
	}
};
} // namespace
int main(int argc, char **argv)
{
	return run_scripts(argc, argv, [](const std::vector<json> &s, const std::function<void(const json &)> &emit) {
		if (s.empty()) return;
		if (s[0]["pl"] == 1) { Store<Plain> x(s[0]); x.script(s, emit); }
		else { Store<Block> x(s[0]); x.script(s, emit); }
	});
}
