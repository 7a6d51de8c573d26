#pragma once
namespace maxflowLib {
template<class T> class Block { public: Block(int, void (*)(const char*) = 0); ~Block(); T* New(int = 1); T* ScanFirst(); T* ScanNext(); void Reset(); };
template<class C, class TC, class F> class Graph { public: typedef int node_id; typedef enum { SOURCE = 0, SINK = 1 } termtype;
  Graph(int, int, void (*)(const char*) = 0); ~Graph(); node_id add_node(int = 1); void add_edge(node_id, node_id, C, C); void add_tweights(node_id, TC, TC);
  F maxflow(bool = false, Block<node_id>* = 0); termtype what_segment(node_id, termtype = SOURCE); TC get_trcap(node_id); void set_trcap(node_id, TC); void mark_node(node_id); void remove_from_changed_list(node_id); void reset(); };
}
