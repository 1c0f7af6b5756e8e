// C08 (spatial index), C09 (cache)
#include "ev.hh"
#include "RStarTree.hh"
#include "Cache.hh"
#include <list>
#include <set>

using namespace ev;

namespace {

  struct Pay { long id = -1; std::string tag; };

  template <std::size_t D> struct Tree {
    using V = Vector<std::size_t, D>;
    using T = RStarTree<std::size_t, D, Pay>;
    struct Box { std::array<long, D> b, e; };
    Ctx& c; Rng& r; T t; std::vector<Box> boxes; std::string kinds; bool rebuilt = false;

    Tree(Ctx& c_) : c(c_), r(c_.rng), t(c_.rng.pick(std::vector<std::size_t>{1, 2, 7, 50, 1000})) { }

    static V vec(const std::array<long, D>& a) { V v; for(std::size_t d = 0; d < D; d++) v[d] = (std::size_t)a[d]; return v; }
    static bool contains(const Box& x, const std::array<long, D>& p) { for(std::size_t d = 0; d < D; d++) if(p[d] < x.b[d] || p[d] >= x.e[d]) return false; return true; }
    static bool overlaps(const Box& x, const Box& y) { for(std::size_t d = 0; d < D; d++) if(x.b[d] >= y.e[d] || y.b[d] >= x.e[d]) return false; return true; }
    static std::string str(const Box& x) { std::ostringstream s; for(std::size_t d = 0; d < D; d++) s << "[" << x.b[d] << "," << x.e[d] << ")"; return s.str(); }

    // box geometries
    int geo = 0; long ext = 100; std::vector<Box> plan; std::size_t plan_pos = 0;
    bool big = false; long base = 0, mult = 1;            // coordinates are base + mult * (small geometry), up to 2^52
    long at(long q) const { return base + mult * q; }
    Box at(Box x) const { for(std::size_t d = 0; d < D; d++) { x.b[d] = at(x.b[d]); x.e[d] = at(x.e[d]); } return x; }
    void make_plan() {
      if(r.chance(0.25)) { base = r.pick(std::vector<long>{0, 0x7fffff00l, 0xfffffff0l, 1l << 40, (1l << 52) + 12345}); mult = r.pick(std::vector<long>{1, 3, 1000, 1l << 20, 1l << 30, (1l << 32) + 1}); }
      big = r.chance(0.02);
      geo = (int)r.range(0, 7); ext = r.pick(std::vector<long>{4, 20, 100, 5000, 1000000});
      if(geo <= 1) {                      // disjoint tiling of the space with irregular cuts (what chunk arrays use)
        std::array<std::vector<long>, D> cuts; long total = 1;
        for(std::size_t d = 0; d < D; d++) { long k = big ? r.irange(D == 1 ? 1001 : D == 2 ? 32 : D == 3 ? 10 : 5, D == 1 ? 2400 : D == 2 ? 44 : D == 3 ? 12 : 7) : r.irange(1, D == 1 ? 60 : D == 2 ? 12 : D == 3 ? 6 : 4); cuts[d].push_back(r.irange(0, 3)); for(long i = 0; i < k; i++) cuts[d].push_back(cuts[d].back() + r.irange(1, std::max<long>(1, ext / 10))); total *= k; }
        std::array<long, D> i; i.fill(0);
        for(long n = 0; n < total; n++) { long q = n; Box x; for(std::size_t d = 0; d < D; d++) { long k = (long)cuts[d].size() - 1; i[d] = q % k; q /= k; x.b[d] = cuts[d][i[d]]; x.e[d] = cuts[d][i[d] + 1]; } if(geo == 0 || r.chance(0.8)) plan.push_back(x); }
        int order = (int)r.range(0, 3);
        if(order == 0) r.shuffle(plan);
        if(order == 1) std::reverse(plan.begin(), plan.end());
        for(auto& x : plan) x = at(x);
      }
    }
    Box random_box() {
      Box x;
      long cl = r.irange(0, 3) * ext / 4;
      std::size_t longaxis = r.range(0, D - 1);
      for(std::size_t d = 0; d < D; d++) {
        long len;
        switch(geo) {
        case 2: len = r.irange(1, std::max<long>(1, ext / 8)); x.b[d] = r.irange(0, ext); break;
        case 3: len = d == longaxis ? r.irange(1, ext) : 1; x.b[d] = r.irange(0, ext); break;                 // skewed
        case 4: len = r.irange(1, 3); x.b[d] = cl + r.irange(0, 4); break;                                     // clustered, many duplicates
        case 5: len = 1; x.b[d] = d == 0 ? r.irange(0, ext) : 7; break;                                       // on one line
        case 6: len = r.irange(1, ext); x.b[d] = ext - len / 2; break;                                        // nested around a common centre
        default: len = r.irange(1, 2) * std::max<long>(1, ext / 10); x.b[d] = r.irange(0, 12) * std::max<long>(1, ext / 10); break;   // touching on a coarse grid
        }
        x.e[d] = x.b[d] + len;
      }
      return at(x);
    }

    std::array<long, D> point() {
      std::array<long, D> p;
      if(!boxes.empty() && r.chance(0.7)) { const Box& x = r.pick(boxes); for(std::size_t d = 0; d < D; d++) { switch(r.range(0, 4)) { case 0: p[d] = x.b[d]; break; case 1: p[d] = x.e[d] - 1; break; case 2: p[d] = r.chance(0.3) ? x.e[d] : x.b[d]; break; case 3: p[d] = r.chance(0.3) ? std::max(0l, x.b[d] - 1) : x.b[d]; break; default: p[d] = r.irange(x.b[d], x.e[d] - 1); } } }
      else for(auto& q : p) q = at(r.irange(0, 2 * ext + 2)) + r.irange(0, mult - 1);
      return p;
    }

    void point_query(const std::array<long, D>& p) {
      Pay* got = t.Search(vec(p));
      std::string ps; for(long x : p) ps += std::to_string(x) + " ";
      if(got) {
        VH_CHECK(got->id >= 0 && got->id < (long)boxes.size(), "tree-payload", "unknown payload ", got->id);
        VH_CHECK(contains(boxes[got->id], p), "tree-wrong-point", "query ", ps, "returned box ", str(boxes[got->id]));
        VH_CHECK(got->tag == std::to_string(got->id), "tree-payload", "payload of entry ", got->id, " changed");
        c.count("point_hits");
      }
      else {
        for(auto& x : boxes) if(contains(x, p)) vh::fail("tree-missed-point", cat("query ", ps, "found nothing, but box ", str(x), " contains it; ", boxes.size(), " boxes"));
        c.count("point_misses");
      }
    }
    void point_query_raw(const std::array<long, D>& p) { t.Search(vec(p)); }     // touches the shortcut of the last found entry
    void range_query() {
      Box q;
      if(!boxes.empty() && r.chance(0.6)) { const Box& x = r.pick(boxes); for(std::size_t d = 0; d < D; d++) { q.b[d] = std::max(0l, x.b[d] + r.irange(-2, 1)); q.e[d] = std::max(q.b[d] + 1, x.e[d] + r.irange(-1, 2)); } }
      else for(std::size_t d = 0; d < D; d++) { q.b[d] = r.irange(0, ext); q.e[d] = q.b[d] + (r.chance(0.2) ? 2 * ext : r.irange(1, std::max<long>(1, ext / 3))); if(d + 1 == D) q = at(q); }
      std::multiset<long> want, got;
      for(std::size_t i = 0; i < boxes.size(); i++) if(overlaps(boxes[i], q)) want.insert((long)i);
      for(const Pay& p : t.Search(vec(q.b), vec(q.e))) got.insert(p.id);
      if(want != got) {
        std::string d;
        for(long w : want) if(!got.count(w)) { d = "missed " + str(boxes[w]); break; }
        for(long g : got) if(!want.count(g) || got.count(g) > 1) { d += cat(" returned ", g, " ", got.count(g), " times"); break; }
        vh::fail("tree-range", cat("range ", str(q), " over ", boxes.size(), " boxes: ", d));
      }
      c.count("range_queries"); c.count("range_hits", got.size());
    }
    void all_entries() {
      std::vector<Pay> all; t.GetAllEntries(all);
      std::multiset<long> ids; for(auto& p : all) ids.insert(p.id);
      VH_CHECK(all.size() == boxes.size() && std::set<long>(ids.begin(), ids.end()).size() == boxes.size(), "tree-entries", "GetAllEntries gives ", all.size(), " entries, expected ", boxes.size());
      std::size_t n = 0; t.Apply([&](Pay& p) { n++; VH_CHECK(p.tag == std::to_string(p.id), "tree-payload", "payload of ", p.id); });
      VH_CHECK(n == boxes.size(), "tree-apply", "Apply visits ", n, " entries");
      VH_CHECK(t.Empty() == boxes.empty(), "tree-empty", "Empty() with ", boxes.size(), " boxes");
      auto bb = t.GetBoundingBox();
      for(std::size_t d = 0; d < D; d++) {
        long b = 0, e = 0; bool f = true;
        for(auto& x : boxes) { b = f ? x.b[d] : std::min(b, x.b[d]); e = f ? x.e[d] : std::max(e, x.e[d]); f = false; }
        VH_CHECK((long)bb.start_coords[d] == b && (long)bb.end_coords[d] == e && (long)bb.shape[d] == e - b, "tree-bbox", "axis ", d, ": [", bb.start_coords[d], ",", bb.end_coords[d], ") expected [", b, ",", e, ")");
      }
      c.count("full_checks"); if(base + mult > 1) c.count("full_checks_far_from_the_origin");
    }
    // structure: nesting of bounding boxes, uniform depth, no empty or overfull node, each entry once
    void structure() {
      fs::path p = c.sub("tree.json");
      t.DumpJSONTreeStructure(p);
      std::ifstream f(p); std::string s((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
      struct Node { long level; Box x; std::size_t kids; bool entry; };
      std::vector<Node> stack; std::multiset<std::string> found; std::size_t pos = 0, nodes = 0; long rootlevel = -1;
      auto close = [&] { VH_CHECK(stack.back().kids >= 1, "tree-empty-node", "node without children"); stack.pop_back(); };
      auto arr = [&](const std::string& o, const char* k) { std::array<long, D> a; std::size_t q = o.find(std::string("\"") + k + "\""); VH_CHECK(q != std::string::npos, "tree-dump", "no ", k); q = o.find('[', q) + 1; const char* z = o.c_str() + q; for(auto& y : a) { char* e; y = std::strtol(z, &e, 10); z = e + 1; } return a; };
      while((pos = s.find('{', pos)) != std::string::npos) {
        std::size_t end = s.find('}', pos); std::string o = s.substr(pos, end - pos); pos = end;
        Node n; n.x.b = arr(o, "start_coords"); n.x.e = arr(o, "end_coords"); n.kids = 0; n.entry = o.find("\"Entry\"") != std::string::npos;
        n.level = -1;
        if(!n.entry) { std::size_t q = o.find("\"level\":"); n.level = std::strtol(o.c_str() + q + 8, nullptr, 10); nodes++; }
        while(!stack.empty() && stack.back().level <= n.level) close();
        if(!stack.empty()) {
          Node& q = stack.back(); q.kids++;
          VH_CHECK(q.level == n.level + 1, "tree-level", "child of level ", n.level, " below a node of level ", q.level);
          for(std::size_t d = 0; d < D; d++) VH_CHECK(n.x.b[d] >= q.x.b[d] && n.x.e[d] <= q.x.e[d], "tree-nesting", n.entry ? "entry " : "node ", str(n.x), " is not inside its parent ", str(q.x));
          VH_CHECK(q.kids <= 10, "tree-overfull", "node with more than the maximum number of children");
        }
        else { VH_CHECK(rootlevel < 0 && !n.entry, "tree-root", "more than one root"); rootlevel = n.level; }
        if(n.entry) found.insert(str(n.x)); else stack.push_back(n);
      }
      while(!stack.empty()) close();
      std::multiset<std::string> want; for(auto& x : boxes) want.insert(str(x));
      VH_CHECK(found == want, "tree-dump-entries", "tree holds ", found.size(), " entries, expected ", want.size());
      c.count("nodes_checked", nodes); if(rootlevel > 0) c.count("multilevel_trees"); if(rootlevel > 1) c.count("trees_with_3_or_more_levels"); if(rootlevel > 2) c.count("trees_with_4_or_more_levels");
    }

    void insert(const Box& x) {
      Pay p; p.id = (long)boxes.size(); p.tag = std::to_string(p.id);
      Pay& q = t.InsertElement(p, vec(x.b), vec(x.e));
      boxes.push_back(x);
      VH_CHECK(q.id == p.id && q.tag == p.tag, "tree-insert-ref", "the returned reference does not refer to the inserted element");
      c.count("inserts");
    }

    void run() {
      make_plan();
      std::size_t n = plan.empty() ? big ? r.range(1001, 2200) : r.pick(std::vector<std::size_t>{3, 11, 12, 40, 120, 300}) : plan.size();
      if(!big && r.chance(0.3)) n = r.range(0, n);
      if(!plan.empty()) n = std::min(n, plan.size());
      c.desc << "tree D" << D << " geo " << geo << " ext " << ext << " base " << base << " mult " << mult << " n " << n << " ";
      for(int i = 0; i < 3; i++) point_query(point());
      range_query(); all_entries(); structure();
      for(std::size_t i = 0; i < n; i++) {
        insert(plan.empty() ? random_box() : plan[i]);
        if(r.chance(0.3)) point_query(point());
        if(r.chance(0.05)) range_query();
        if(r.chance(big ? 0.002 : 0.03)) { structure(); kinds += 's'; }
        if(r.chance(big ? 0.002 : 0.02)) all_entries();
        if(r.chance(big ? 0.001 : 0.01)) { t.RebuildSTR(); all_entries(); structure(); kinds += 'R'; }
        if(geo <= 1 && r.chance(0.1)) {            // change a box that is the only one containing its start
          std::size_t k = r.range(0, boxes.size() - 1); int cnt = 0;
          for(auto& y : boxes) if(contains(y, boxes[k].b)) cnt++;
          if(cnt == 1) {
            Box& y = boxes[k]; std::array<long, D> start = y.b, p; std::size_t d = r.range(0, D - 1);
            int how = (int)r.range(0, 5);
            if(how <= 2) y.e[d] += r.irange(1, 5) * mult;                                                          // grow (what chunk arrays do)
            else if(how == 3) y.e[d] = r.irange(y.b[d] + 1, y.e[d]);                                               // shrink
            else if(how == 4) y.b[d] = std::max(0l, y.b[d] - r.irange(0, 5));                                      // extend to the front
            else { long s = r.irange(-20, 20) * mult; s = std::max(s, -y.b[d]); y.b[d] += s; y.e[d] += s; }        // move
            if(r.chance(0.3)) point_query_raw(start);
            t.UpdateBoundingBox(vec(start), vec(y.b), vec(y.e)); kinds += 'u'; c.count("updates");
            for(std::size_t i = 0; i < D; i++) p[i] = y.b[i];
            p[d] = y.e[d] - 1; point_query(p); point_query(start); p[d] = y.e[d]; point_query(p);
          }
        }
        if(r.chance(big ? 0.0001 : 0.002)) { t.Clear(); boxes.clear(); all_entries(); structure(); point_query(point()); range_query(); kinds += 'C'; }
      }
      for(int round = 0; round < 2; round++) {
        all_entries(); structure();
        for(auto& x : boxes) { std::array<long, D> p; for(std::size_t d = 0; d < D; d++) p[d] = r.chance(0.5) ? x.b[d] : x.e[d] - 1; point_query(p); }
        for(int i = 0; i < 30; i++) point_query(point());
        for(int i = 0; i < 20; i++) range_query();
        if(round == 0) { int q = (int)r.range(0, 3); if(q <= 1) { t.RebuildSTR(); kinds += 'R'; } else if(q == 2 && r.chance(0.3)) { t.Clear(); boxes.clear(); kinds += 'C'; for(int i = 0; i < 15; i++) insert(random_box()); } }
        if(round == 0 && r.chance(0.5)) for(int i = 0; i < 12; i++) insert(random_box());      // extend a bulk-built tree
      }
      c.desc << kinds; c.nontrivial = n > 10;
    }
  };

  vh::Reg r08("C08", [](Ctx& c) {
    switch(c.rng.range(0, 4)) { case 0: Tree<1>(c).run(); break; case 1: Tree<2>(c).run(); break; case 2: Tree<4>(c).run(); break; default: Tree<3>(c).run(); break; }
  });

  // ------------------------------------------------------------------------------------------------------------
  // C09

  template <class K, class P> struct CacheTest {
    Ctx& c; Rng& r;
    std::function<K(long)> mk; std::function<P(long)> mp;

    void run() {
      std::size_t depth = r.chance(0.2) ? 1 : r.range(1, r.chance(0.1) ? 60 : 8);
      Cache<K, P> cache(depth, mp(-1));
      std::list<std::pair<K, P>> m;         // oldest first
      long next = 0; long universe = (long)r.range(1, 3 * depth + 4);
      int n = (int)r.range(10, c.thorough ? 600 : 200);
      std::string kinds;
      auto find = [&](const K& k) { auto it = m.begin(); while(it != m.end() && !(it->first == k)) ++it; return it; };
      auto verify = [&] {
        VH_CHECK(cache.has_free_slot() == (m.size() < depth), "cache-free", "depth ", depth, " holding ", m.size());
        std::set<K> want, got; for(auto& x : m) want.insert(x.first);
        auto v = cache.contained_elements(); got.insert(v.begin(), v.end());
        VH_CHECK(v.size() == m.size() && want == got, "cache-content", "holds ", v.size(), " entries, expected ", m.size());
        for(long i = 0; i < universe; i++) VH_CHECK(cache.contains(mk(i)) == (find(mk(i)) != m.end()), "cache-contains", "key ", i);
        auto it = m.begin(); std::size_t k = 0;
        cache.loop_over_elements_old_to_new([&](P& p) { VH_CHECK(it != m.end() && p == it->second, "cache-order", "old-to-new position ", k); ++it; k++; });
        VH_CHECK(it == m.end(), "cache-order", "old-to-new visited ", k, " of ", m.size());
        auto rt = m.rbegin(); k = 0;
        cache.loop_over_elements_new_to_old([&](P& p) { VH_CHECK(rt != m.rend() && p == rt->second, "cache-order", "new-to-old position ", k); ++rt; k++; });
        VH_CHECK(rt == m.rend(), "cache-order", "new-to-old visited ", k, " of ", m.size());
      };
      verify();
      double bias = r.real();
      for(int i = 0; i < n && depth > 0; i++) {
        long id = bias < 0.3 ? (r.chance(0.7) ? 0 : r.irange(0, universe - 1)) : r.irange(0, universe - 1);
        K k = mk(id); auto it = find(k);
        std::size_t op = r.range(0, 9);
        if(it != m.end() && op < 5) {                  // access
          P& p = cache.get(k);
          VH_CHECK(p == it->second, "cache-payload", "wrong payload for key ", id);
          if(r.chance(0.4)) { p = mp(next++); it->second = p; }
          m.splice(m.end(), m, it); kinds += 'g';
        }
        else if(it != m.end() && op < 7) {             // evict
          P& p = cache.evict(k); VH_CHECK(p == it->second, "cache-evict", "evict returns the wrong payload");
          m.erase(it); kinds += 'e';
        }
        else if(it == m.end()) {
          if(m.size() == depth) {
            P& p = cache.evict_oldest_from_full_cache();
            VH_CHECK(p == m.front().second, "cache-lru", "evicted entry is not the least recently used one");
            m.pop_front(); kinds += 'o';
            if(r.chance(0.2)) verify();
          }
          P p = mp(next++);
          if(r.chance(0.5)) cache.insert_no_overwrite(k, p); else cache.insert_ref_no_overwrite(k) = p;
          m.push_back({k, p}); kinds += 'i';
        }
        if(r.chance(0.3)) verify();
      }
      verify();
      c.desc << "cache depth " << depth << " keys " << universe << " " << kinds.substr(0, 400);
      c.count("operations", kinds.size()); c.count("evictions_of_oldest", std::count(kinds.begin(), kinds.end(), 'o')); c.nontrivial = depth > 0;
    }
  };

  vh::Reg r09("C09", [](Ctx& c) {
    switch(c.rng.range(0, 2)) {
    case 0: CacheTest<std::size_t, std::string>{c, c.rng, [](long i) { return (std::size_t)i * 7919; }, [](long i) { return "payload" + std::to_string(i); }}.run(); break;
    case 1: CacheTest<std::string, std::vector<float>>{c, c.rng, [](long i) { return "key" + std::to_string(i); }, [](long i) { return std::vector<float>((std::size_t)((i + 7) % 7), (float)i); }}.run(); break;
    default: CacheTest<int, long>{c, c.rng, [](long i) { return (int)i - 3; }, [](long i) { return i * 3 + 1; }}.run(); break;
    }
  });
}
VH_MAIN
