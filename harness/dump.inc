/* Included by shim.c (C) and p_cpp.cpp (C++): writes every result field of an object through the reader's own layout. */
static char *DUMP_FN(const void *p_) {
    const DUMP_NS hdbscan *sc = (const DUMP_NS hdbscan *)p_;
    size_t cap = 1 << 16, len = 0, i, j;
    char *out = (char *)malloc(cap);
#define P(...) do { if (cap - len < 400) { cap *= 2; out = (char *)realloc(out, cap); } len += (size_t)snprintf(out + len, cap - len, __VA_ARGS__); } while (0)
    P("points %lu minPoints %lu rows %lu cols %lu neighbors %lu type %d\n", (unsigned long)sc->numPoints, (unsigned long)sc->minPoints, (unsigned long)sc->distanceFunction.rows, (unsigned long)sc->distanceFunction.cols, (unsigned long)sc->distanceFunction.numNeighbors, (int)sc->distanceFunction.datatype);
    P("labels");
    if (sc->clusterLabels) for (i = 0; i < sc->numPoints; i++) P(" %lu", (unsigned long)sc->clusterLabels[i]);
    P("\nscores");
    if (sc->outlierScores) for (i = 0; i < sc->numPoints; i++) P(" (%lu %a %a)", (unsigned long)sc->outlierScores[i].id, (double)sc->outlierScores[i].score, (double)sc->outlierScores[i].coreDistance);
    P("\ncore");
    if (sc->distanceFunction.coreDistances) for (i = 0; i < sc->numPoints; i++) P(" %a", (double)sc->distanceFunction.coreDistances[i]);
    P("\ndistances");
    if (sc->distanceFunction.distances) for (i = 0; i < (size_t)sc->numPoints * (sc->numPoints - 1) / 2; i++) P(" %a", (double)sc->distanceFunction.distances[i]);
    P("\nclusters");
    if (sc->clusters) for (i = 0; i < sc->clusters->size; i++) {
        const DUMP_NS cluster *c = ((DUMP_NS cluster **)sc->clusters->data)[i];
        if (!c) { P(" NULL"); continue; }
        P(" (%lu parent %ld birth %a death %a points %lu offset %ld stability %a propagated %a lowest %a constraints %lu %lu kids %d noise", (unsigned long)c->label, c->parent ? (long)c->parent->label : -1L, (double)c->birthLevel, (double)c->deathLevel,
          (unsigned long)c->numPoints, (long)c->offset, (double)c->stability, (double)c->propagatedStability, (double)c->propagatedLowestChildDeathLevel, (unsigned long)c->numConstraintsSatisfied, (unsigned long)c->propagatedNumConstraintsSatisfied, (int)c->hasChildren);
        if (c->virtualChildCluster) for (j = 0; j < c->virtualChildCluster->size; j++) P(" %lu", (unsigned long)((index_t *)c->virtualChildCluster->data)[j]);
        P(" descendants");
        if (c->propagatedDescendants) for (j = 0; j < c->propagatedDescendants->size; j++) P(" %lu", (unsigned long)((DUMP_NS cluster **)c->propagatedDescendants->data)[j]->label);
        P(")");
    }
    P("\nhierarchy");
    if (sc->hierarchy) for (i = 0; i < sc->hierarchy->keys->size; i++) {
        long key = ((long *)sc->hierarchy->keys->data)[i];
        DUMP_NS hierarchy_entry *e = NULL;
        hashtable_lookup(sc->hierarchy, &key, &e);
        if (!e) { P(" (%ld missing)", key); continue; }
        P(" (%ld %a:", key, (double)e->edgeWeight);
        for (j = 0; j < sc->numPoints; j++) P(" %lu", (unsigned long)e->labels[j]);
        P(")");
    }
    P("\ntree");
    if (sc->mst) {
        P(" %lu", (unsigned long)sc->mst->numVertices);
        for (i = 0; i < sc->mst->edgeWeights->size; i++) P(" (%lu %lu %a)", (unsigned long)((index_t *)sc->mst->verticesA->data)[i], (unsigned long)((index_t *)sc->mst->verticesB->data)[i], (double)((distance_t *)sc->mst->edgeWeights->data)[i]);
    }
    P("\nself edges %d\n", (int)sc->selfEdges);
#undef P
    return out;
}
