// Every public operation of every container, as a user would call it. Nothing is executed:
// the unit is compiled (C30) and its IR is analysed (C27, C28, C36).
#pragma once
template <class T> T &lv();            // declared only
template <class T> void sink(const T &);  // declared only
extern int gi;

template <class V, class T> void use_big5(V &v, const V &c) {
    V a; V b(c); V d(static_cast<V &&>(v)); a = c; a = static_cast<V &&>(b); sink(a); sink(d);
}
template <class V, class T> void use_Vector(V &v, const V &c, const T &x, T &y) {
    use_big5<V, T>(v, c); V w(3, x); sink(w);
    sink(c.empty()); sink(c.size()); sink(c.capacity()); sink(c.back()); sink(c.front()); sink(c[0]); sink(v[-1]); v[0] = y;
    v.push(x); v.push_back(x); v.pop(); v.pop_back(); v.clear(); v.resize(4); v.resize(5, x);
    for (auto &e : v) sink(e); for (auto &e : c) sink(e);
    auto it = v.begin(); ++it; it++; --it; it--; it = it + 1; it = it - 1; sink(*it); sink(it == v.end()); sink(it != v.end()); sink(dstruct::distance(v.begin(), v.end()));
    sink(dstruct::distance(c.begin(), c.end())); auto ci = c.begin(); ++ci; ci++; --ci; ci--; sink(*ci); sink(ci.operator->());
}
template <class V, class T> void use_Array(V &v, const V &c, const T &x, T &y) {
    use_big5<V, T>(v, c); V w(x); sink(w);
    sink(c.empty()); sink(c.size()); sink(c.capacity()); sink(c.back()); sink(c.front()); sink(c[0]); sink(v[-1]); v[0] = y;
    for (auto &e : v) sink(e); for (auto &e : c) sink(e);
    sink(dstruct::distance(v.begin(), v.end())); sink(c.begin() == c.end());
}
template <class V, class T> void use_List(V &v, const V &c, const T &x, T &y) {
    use_big5<V, T>(v, c); V w(3, x); sink(w);
    sink(c.empty()); sink(c.size()); sink(c.back()); sink(c.front());
    v.push(x); v.push_back(x); v.push_front(x); v.pop(); v.pop_front(); v.clear();
    for (auto &e : v) sink(e); for (auto &e : c) sink(e);
    auto it = v.begin(); ++it; it++; *it = y; sink(it == v.end()); sink(it != v.end()); sink(it.operator->());
    auto ci = c.begin(); ++ci; ci++; sink(*ci); sink(ci != c.end());
}
template <class V, class T> void use_SList(V &v, const V &c, const T &x, T &y) { use_List<V, T>(v, c, x, y); v._pop_back(); }
template <class V, class T> void use_DList(V &v, const V &c, const T &x, T &y) {
    use_List<V, T>(v, c, x, y); v.pop_back(); auto it = v.end(); --it; it--; sink(*it); auto ci = c.end(); --ci; ci--; sink(*ci);
}
template <class V, class T> void use_Deque(V &v, const V &c, const T &x, T &) {
    use_big5<V, T>(v, c);
    sink(c.empty()); sink(c.size()); sink(c.capacity()); sink(c.back()); sink(c.front()); sink(c[0]); sink(c[-1]);
    v.push(x); v.push_back(x); v.push_front(x); v.pop(); v.pop_front(); v.pop_back(); v.clear();
    for (auto &e : c) sink(e);
    auto it = c.begin(); ++it; it++; --it; it--; it = it + 1; it = it - 1; sink(*it); sink(it == c.end()); sink(it != c.end()); sink(it.operator->());
}
template <class V, class T> void use_Queue(V &v, const V &c, const T &x, T &) {
    use_big5<V, T>(v, c); sink(c.size()); sink(c.empty()); sink(c.back()); sink(c.front()); sink(v[0]); v.push(x); v.pop(); for (auto &e : c) sink(e);
}
template <class V, class T> void use_Stack(V &v, const V &c, const T &x, T &) {
    use_big5<V, T>(v, c); sink(c.size()); sink(c.empty()); sink(c.top()); v.push(x); v.pop(); v.clear(); for (auto &e : c) sink(e);
}
template <class V, class T> void use_XStack(V &v, const V &c, const T &x, T &) {
    use_big5<V, T>(v, c); sink(c.empty()); sink(c.top()); sink(c.getXValue()); v.push(x); v.pop(); v.clear(); for (auto &e : c) sink(e);
}
template <class V, class T> void use_Heap(V &v, const V &c, const T &x, T &) {
    use_big5<V, T>(v, c); sink(c.size()); sink(c.capacity()); sink(c.empty()); sink(c.top()); sink(v[1]); v.push(x); v.pop(); for (auto &e : c) sink(e);
    dstruct::Vector<T, typename V_alloc<V>::A> r(3, x); V h(r.begin(), r.end()); sink(h); sink(V::build(r.begin(), r.end())); V::sort(r.begin(), r.end());
}
template <class V, class T> void use_Tree(V &v, const V &c, const T &x, T &) {
    use_big5<V, T>(v, c); sink(c.size()); sink(c.capacity()); sink(c.empty()); v.push(x); v.pop(x); sink(v._get_root_ptr());
    auto f = c.find(x); sink(*f); sink(f == c.end()); sink(f != c.end()); v.erase(c.find(x)); v.clear();
    for (auto &e : c) sink(e); for (auto &e : v) sink(e);
    auto it = c.begin(V::TraversalType::PreOrder); ++it; it++; sink(it != c.end(V::TraversalType::PreOrder)); c.begin(V::TraversalType::PostOrder);
    auto cb = [](const typename V_cb<V, T>::D &e) { sink(e); };
    c.traversal(cb); c.traversal(cb, V::TraversalType::PreOrder); c.traversal(cb, V::TraversalType::PostOrder);
}
template <class V, class T> void use_Map(V &v, const V &c, const T &x, T &y) {
    use_big5<V, T>(v, c); sink(c.size()); sink(c.capacity()); sink(c.empty()); v[x] = y; sink(c[x]); v.push({x, y}); v.pop(x); auto f = v.find(x); sink(f == v.end());
    sink(f->key); sink(f->value); v.erase(f); for (auto &e : v) sink(e.key); for (auto &e : c) sink(e.value); v.clear();
}
template <class V> void use_UFSet(V &v, const V &c) {
    V w(10); V a(c); V d(static_cast<V &&>(v)); a = c; a = static_cast<V &&>(w); sink(d);
    sink(c.empty()); sink(c.size()); sink(c.capacity()); sink(c.count()); sink(v.find(1)); sink(v.connected(1, 2)); v.connect(1, 2); v.union_set(1, 2);
}
template <class V> void use_String(V &v, const V &c) {
    use_big5<V, char>(v, c); V w("abc"); w = "def"; sink(w); sink(c.empty()); sink(c.size()); sink(c.capacity()); sink(c.back()); sink(c.front()); sink(c[0]);
    v.push_back('x'); v[0] = 'y'; v.clear(); for (auto &e : v) sink(e); for (auto &e : c) sink(e); sink(c.c_str()); v += c; v += "zz";
    sink(c + c); sink(c + "a"); sink("a" + c); sink(c == c); sink(c == "a"); sink("a" == c); sink(c != c); sink(c != "a"); sink("a" != c);
}
template <class N> void use_ENode(N &a, N &b) {
    N::init(&a); sink(N::empty(&a)); N::add(&a, &b); N::del(&a, &b); sink(N::to_node(N::to_link(&a)));
    typedef typename N::LinkType L; L::init(&a.link); L::add(&a.link, &b.link); L::del(&a.link, &b.link); sink(L::empty(&a.link));
}
template <class It, class T> void use_algo(It a, It b, T x) {
    dstruct::algorithm::for_each(a, b, [](const T &e) { sink(e); }); sink(dstruct::algorithm::find(a, b, x));
}
