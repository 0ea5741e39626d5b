// Instantiates the graph containers so that the resolved bodies are available to the analysis.
#include "lib/Utils/Graph/Graph.h"
using mlir::heir::graph::Graph;
using mlir::heir::graph::UndirectedGraph;
using mlir::heir::graph::GreedyGraphColoring;
void instantiate(Graph<int> &g, UndirectedGraph<int> &u) {
  g.addVertex(0); g.addEdge(0, 1); g.addEdge(0, 1, 2); g.hasEdge(0, 1); g.contains(0); g.empty();
  g.getVertices(); g.getEdges(); g.edgesOutOf(0); g.edgesInto(0); g.contractEdge(0, 1); g.condenseGraph();
  (void)g.topologicalSort(); (void)g.sortGraphByLevels(); g.getSources(); g.getSinks(); g.getInDegree(0); g.getOutDegree(0);
  (void)g.getShortestPath(0, 1); (void)g.findApproximateCriticalPath(); g.getStronglyConnectedComponents();
  u.addVertex(0); u.hasEdge(0, 1); u.addEdge(0, 1); u.contains(0); u.empty(); u.getVertices(); u.edgesIncidentTo(0);
  GreedyGraphColoring<int> k; k.color(u);
}
