// Printing of mesh objects, shared by the serial and the distributed builder.
#ifndef VERIF_MESHOBJ_HPP
#define VERIF_MESHOBJ_HPP
#include <cstdio>
#include <sstream>
#include <map>

static thread_local std::string s;
static void put(const char* f, double v) {
    char b[48];
    if (v != v)
        s += "\"nan\"";
    else {
        snprintf(b, sizeof b, f, v);
        s += b;
    }
}
template <typename M>
static void mat(const M& m) {  // rows of a matrix of points: [[x..],[y..]]
    s += "[";
    for (uint k = 0; k < 2; ++k) {
        s += k ? ",[" : "[";
        for (uint g = 0; g < columns(m); ++g) {
            if (g) s += ",";
            put("%.17g", m(k, g));
        }
        s += "]";
    }
    s += "]";
}
static void ids(const std::vector<uint>& v) {
    s += "[";
    for (size_t i = 0; i < v.size(); ++i)
        s += (i ? "," : "") + (v[i] == DEFAULT_ID ? std::string("-1") : std::to_string(v[i]));
    s += "]";
}
struct Where {
    StatVector<double, 2> operator()(const Point<2>& p) const { return StatVector<double, 2>{p[0], p[1]}; }
};
// numbering of the face unknowns, where the discretization has one
#ifdef HAS_NUMBERS
#ifdef GN_NUMBERS
template <typename B>
static void block(const B& b) { s += "[" + std::to_string(b.dc_global_dof_indx) + "]"; }
#else
template <typename B>
static void block(const B& b) { ids(b.global_dof_indx); }
#endif
#else
template <typename B>
static void block(const B&) { s += "[]"; }
#endif

template <size_t N, typename Tuple, typename T>
struct IndexOf {
    static int get() {
        return std::is_same<typename std::tuple_element<N - 1, Tuple>::type, T>::value ? (int)N - 1 : IndexOf<N - 1, Tuple, T>::get();
    }
};
template <typename Tuple, typename T>
struct IndexOf<0, Tuple, T> {
    static int get() { return -1; }
};
template <typename Tuple, typename T>
static int index_of(const T&) { return IndexOf<std::tuple_size<Tuple>::value, Tuple, T>::get(); }

#ifdef HAS_EDGES
template <typename E>
static void edge_tail(E& e) {
    s += ",\"ndof\":" + std::to_string(e.edge_data.get_ndof()) + ",\"blk\":";
    block(e.edge_data.edge_internal);
    s += "}";
}
template <typename B, typename Skel, typename Ids>
static void edges(Skel& sk, Ids& id) {
    s += ",\"eint\":[";
    bool f = true;
    sk.CallForEachEdgeInterface([&](auto& e) {
        auto& i = e.interface;
        s += f ? "{" : ",{";
        f = false;
        s += "\"t\":" + std::to_string(index_of<typename B::ProblemEdgeInterfaceTypes>(e));
        s += ",\"i\":" + std::to_string(id.at((const void*)&i.data_in)) + ",\"k\":" + std::to_string(i.bound_id_in);
        s += ",\"j\":" + std::to_string(id.at((const void*)&i.data_ex)) + ",\"l\":" + std::to_string(i.bound_id_ex);
        edge_tail(e);
    });
    s += "],\"ebnd\":[";
    f = true;
    sk.CallForEachEdgeBoundary([&](auto& e) {
        auto& i = e.boundary;
        s += f ? "{" : ",{";
        f = false;
        s += "\"t\":" + std::to_string(index_of<typename B::ProblemEdgeBoundaryTypes>(e));
        s += ",\"i\":" + std::to_string(id.at((const void*)&i.data)) + ",\"k\":" + std::to_string(i.bound_id);
        edge_tail(e);
    });
    s += "]";
}
#endif
template <typename Mesh, typename Ids>
static void elements(Mesh& mesh, Ids& id) {
    s += "\"elts\":[";
    bool f = true;
    mesh.CallForEachElement([&](auto& e) {
        id[(const void*)&e.data] = e.GetID();
        s += f ? "{" : ",{";
        f = false;
        s += "\"id\":" + std::to_string(e.GetID()) + ",\"n\":";
        ids(e.GetNodeID());
#ifdef HAS_NUMBERS
        s += ",\"blk\":[";
        for (uint k = 0; k < e.data.boundary.size(); ++k) {
            if (k) s += ",";
            block(e.data.boundary[k]);
        }
        s += "]";
#endif
        s += "}";
    });
    s += "]";
}
#endif
