// S08: the spatial index finds exactly the stored boxes (history against a flat list of boxes).
#include "arr.hh"
#include "RStarTree.hh"

template <std::size_t D> struct Box { SInd<D> lo, hi; std::size_t id; };
template <std::size_t D> bool inside(const Box<D>& b, const SInd<D>& p) { for(std::size_t i = 0; i < D; i++) { if(p[i] < b.lo[i] || p[i] >= b.hi[i]) { return false; } } return true; }
template <std::size_t D> bool meets(const Box<D>& b, const SInd<D>& lo, const SInd<D>& hi) { for(std::size_t i = 0; i < D; i++) { if(!(b.lo[i] < hi[i] && lo[i] < b.hi[i])) { return false; } } return true; }
struct Payload { std::size_t id = 12345678; std::string tag; };

template <std::size_t D> void history(pbt::Case& c) {
  using Tree = RStarTree<std::size_t, D, Payload>;
  std::size_t init = c.small<std::size_t>(1, 50);
  Tree tree(init);
  std::vector<Box<D>> model; std::size_t next_id = 0, queries = 0, updates = 0, biggest = 0;
  // geometry of the boxes inserted in this history
  int geometry = (int)c.integer(0, 4);   // 0 tiles in scan order, 1 tiles in scattered order, 2 random boxes, 3 slabs growing along one axis, 4 clustered
  std::size_t tile = c.integer<std::size_t>(1, 6), side = c.integer<std::size_t>(2, 6) + (D == 1 ? 60 : 0), axis = c.integer<std::size_t>(0, D - 1);
  std::uint64_t salt = c.draw(1 << 16); std::size_t cursor = 0, slab = c.integer<std::size_t>(0, 9);
  std::size_t range = c.pick<std::size_t>({12, 60, 1000});
  SInd<D> base = zero_ind<D>(); if(c.chance(1, 5)) { for(auto& x : base) { x = c.pick<std::size_t>({0, 1000003, (1ull << 32) - 20, (1ull << 33) + 7}); } }
  static const char* gname[] = {"tiles", "scattered tiles", "random boxes", "slabs", "clusters"};
  NOTE(c, "pool " << init << ", " << gname[geometry] << " tile " << tile << " side " << side << " axis " << axis << " range " << range << " from " << str<D>(base));
  bool disjoint = geometry <= 1 || geometry == 3;
  std::size_t ntiles = 1; for(std::size_t i = 0; i < D; i++) { ntiles *= side; }
  // a bijection on tile numbers for the scattered order
  std::size_t mult = 1 + 2 * (salt % 500); while(std::gcd(mult, ntiles) != 1) { mult++; }

  auto make = [&]() -> std::optional<Box<D>> {
    Box<D> b; b.id = next_id;
    switch(geometry) {
      case 0: case 1: {
        if(cursor >= ntiles) { return {}; }
        std::size_t k = geometry == 0 ? cursor : (cursor * mult + salt) % ntiles; cursor++;
        for(std::size_t d = D; d-- > 0; ) { std::size_t t = k % side; k /= side; b.lo[d] = t * tile; b.hi[d] = b.lo[d] + tile; }
        break;
      }
      case 3: {
        for(std::size_t d = 0; d < D; d++) { b.lo[d] = 0; b.hi[d] = range; }
        std::size_t th = 1 + pbt::mix(salt, cursor) % (slab + 1); b.lo[axis] = model.empty() ? 0 : 0; for(auto& m : model) { b.lo[axis] = std::max(b.lo[axis], m.hi[axis]); } b.hi[axis] = b.lo[axis] + th; cursor++;
        break;
      }
      default: {
        for(std::size_t d = 0; d < D; d++) {
          std::uint64_t r = pbt::mix(pbt::mix(salt, cursor), d);
          if(geometry == 2) { b.lo[d] = r % range; b.hi[d] = b.lo[d] + 1 + (r >> 20) % std::max<std::size_t>(1, range / 3); }
          else { std::size_t cl = (r >> 8) % 4; b.lo[d] = cl * range + (r >> 16) % 8; b.hi[d] = b.lo[d] + 1 + (r >> 24) % 4; }
        }
        cursor++;
      }
    }
    if(geometry != 3) { b.lo = add<D>(b.lo, base); b.hi = add<D>(b.hi, base); }
    else { for(std::size_t d = 0; d < D; d++) { if(d != axis) { b.lo[d] += base[d]; b.hi[d] += base[d]; } else if(model.empty()) { b.lo[d] += base[d]; b.hi[d] += base[d]; } } }
    return b;
  };
  auto insert = [&]() {
    auto b = make(); if(!b) { return; }
    if(disjoint && updates > 0) { for(auto& m : model) { if(meets<D>(m, b -> lo, b -> hi)) { return; } } }   // a grown box took this place
    Payload p; p.id = b -> id; p.tag = "box" + std::to_string(b -> id); next_id++;
    Payload& ref = tree.InsertElement(p, vec<D>(b -> lo), vec<D>(b -> hi));
    CHECK(c, ref.id == p.id && ref.tag == p.tag, "InsertElement returns a reference to another element");
    model.push_back(*b);
  };
  auto point = [&](const SInd<D>& p) {
    queries++;
    bool any = false; for(auto& b : model) { any = any || inside<D>(b, p); }
    Payload* r = tree.Search(vec<D>(p));
    CHECK(c, (r != nullptr) == any, "point " << str<D>(p) << (any ? " is inside a stored box but nothing was found" : " is in no stored box but something was found"));
    if(r) { const Box<D>* m = nullptr; for(auto& b : model) { if(b.id == r -> id) { m = &b; } } CHECK(c, m && inside<D>(*m, p), "point " << str<D>(p) << " answered with box " << r -> id << " which does not contain it"); CHECK(c, r -> tag == "box" + std::to_string(r -> id), "payload of box " << r -> id << " damaged"); }
  };
  auto region = [&](const SInd<D>& lo, const SInd<D>& hi) {
    queries++;
    std::set<std::size_t> want; for(auto& b : model) { if(meets<D>(b, lo, hi)) { want.insert(b.id); } }
    std::set<std::size_t> got;
    for(const Payload& p : tree.Search(vec<D>(lo), vec<D>(hi))) { CHECK(c, got.insert(p.id).second, "region query returns box " << p.id << " twice"); CHECK(c, p.tag == "box" + std::to_string(p.id), "payload of box " << p.id << " damaged"); }
    CHECK(c, got == want, "region " << str<D>(lo) << ".." << str<D>(hi) << ": found " << got.size() << " boxes, expected " << want.size());
  };
  auto corner = [&](const Box<D>& b) { SInd<D> p; for(std::size_t d = 0; d < D; d++) { switch(c.integer(0, 4)) { case 0: p[d] = b.lo[d]; break; case 1: p[d] = b.hi[d] - 1; break; case 2: p[d] = b.hi[d]; break; case 3: p[d] = b.lo[d] > 0 ? b.lo[d] - 1 : 0; break; default: p[d] = b.lo[d] + (b.hi[d] - b.lo[d]) / 2; } } return p; };
  auto full = [&]() {
    CHECK(c, tree.Empty() == model.empty(), "Empty()");
    std::vector<Payload> all; tree.GetAllEntries(all); std::set<std::size_t> ids; for(auto& p : all) { CHECK(c, ids.insert(p.id).second, "entry " << p.id << " listed twice"); }
    CHECK(c, all.size() == model.size(), "listing has " << all.size() << " entries, expected " << model.size());
    for(auto& b : model) { CHECK(c, ids.count(b.id), "entry " << b.id << " not listed"); }
    std::set<std::size_t> seen; tree.Apply([&](Payload& p) { CHECK(c, seen.insert(p.id).second, "entry " << p.id << " visited twice"); }); CHECK(c, seen == ids, "visited " << seen.size() << " entries");
    auto bb = tree.GetBoundingBox();
    if(!model.empty()) {
      SInd<D> lo = model[0].lo, hi = model[0].hi; for(auto& b : model) { for(std::size_t d = 0; d < D; d++) { lo[d] = std::min(lo[d], b.lo[d]); hi[d] = std::max(hi[d], b.hi[d]); } }
      CHECK(c, arr<D>(bb.start_coords) == lo && arr<D>(bb.end_coords) == hi && arr<D>(bb.shape) == sub<D>(hi, lo), "bounding box " << str<D>(arr<D>(bb.start_coords)) << ".." << str<D>(arr<D>(bb.end_coords)) << " expected " << str<D>(lo) << ".." << str<D>(hi));
      // every box is found from one of its own points
      for(auto& b : model) { if(disjoint) { Payload* r = tree.Search(vec<D>(b.lo)); CHECK(c, r && r -> id == b.id, "box " << b.id << " at " << str<D>(b.lo) << " not found"); } else { Payload* r = tree.Search(vec<D>(b.lo)); CHECK(c, r, "nothing found at " << str<D>(b.lo)); } }
      region(lo, hi);
    } else { CHECK(c, arr<D>(bb.start_coords) == zero_ind<D>() && arr<D>(bb.end_coords) == zero_ind<D>(), "bounding box of empty index"); }
  };

  std::size_t n = 0;
  while(c.more(n, 30, 12)) {
    pbt::Case::Span span(c); n++;
    switch(c.weighted({6, 5, 5, 3, 1, 2, 1})) {
      case 0: { std::size_t k = c.chance(1, 40) ? c.integer<std::size_t>(100, 600) : c.small<std::size_t>(1, 40); NOTE(c, "insert " << k); for(std::size_t i = 0; i < k; i++) { insert(); } break; }
      case 1: { SInd<D> p; if(!model.empty() && c.chance(4, 5)) { p = corner(model[c.integer<std::size_t>(0, model.size() - 1)]); } else { for(auto& x : p) { x = c.integer<std::size_t>(0, range + 5); } p = add<D>(p, base); } NOTE(c, "point " << str<D>(p)); point(p); point(p); break; }
      case 2: {
        SInd<D> lo, hi;
        if(!model.empty() && c.chance(3, 4)) { lo = corner(model[c.integer<std::size_t>(0, model.size() - 1)]); SInd<D> q = corner(model[c.integer<std::size_t>(0, model.size() - 1)]); for(std::size_t d = 0; d < D; d++) { std::size_t a = std::min(lo[d], q[d]), b = std::max(lo[d], q[d]); lo[d] = a; hi[d] = std::max(b, a + 1); } }
        else { for(std::size_t d = 0; d < D; d++) { lo[d] = base[d] + c.integer<std::size_t>(0, range); hi[d] = lo[d] + c.small<std::size_t>(1, range); } }
        NOTE(c, "region " << str<D>(lo) << ".." << str<D>(hi)); region(lo, hi); break;
      }
      case 3: {   // grow one box (addressed through a point that only it contains)
        if(model.empty()) { break; }
        Box<D>& b = model[c.integer<std::size_t>(0, model.size() - 1)];
        SInd<D> p = b.lo; std::size_t holders = 0; for(auto& m : model) { holders += inside<D>(m, p); }
        if(holders != 1) { break; }
        SInd<D> lo = b.lo, hi = b.hi; std::size_t ax = c.integer<std::size_t>(0, D - 1), by = c.integer<std::size_t>(1, 9);
        if(c.chance(1, 4) && lo[ax] > 0) { lo[ax] -= std::min(by, lo[ax]); } else { hi[ax] += by; }
        if(disjoint) { Box<D> g{lo, hi, b.id}; bool clash = false; for(auto& m : model) { clash = clash || (m.id != b.id && meets<D>(m, lo, hi)); } if(clash) { break; } }
        NOTE(c, "grow box " << b.id << " to " << str<D>(lo) << ".." << str<D>(hi)); updates++;
        tree.UpdateBoundingBox(vec<D>(p), vec<D>(lo), vec<D>(hi)); b.lo = lo; b.hi = hi;
        point(lo); SInd<D> last = hi; for(auto& x : last) { x--; } point(last);
        break;
      }
      case 4: { NOTE(c, "clear"); tree.Clear(); model.clear(); cursor = 0; break; }
      case 5: { NOTE(c, "bulk reorganise"); tree.RebuildSTR(); break; }
      default: NOTE(c, "full check of " << model.size()); full(); break;
    }
    biggest = std::max(biggest, model.size());
  }
  full();
  c.nontrivial(biggest > 11 && queries > 0);
  c.label_if(biggest > 11, "more than one node"); c.label_if(biggest > 110, "three or more levels"); c.label_if(updates > 0, "with grown boxes");
}
PROPERTY(d1, 2) { history<1>(c); }
PROPERTY(d2, 3) { history<2>(c); }
PROPERTY(d3, 4) { history<3>(c); }
