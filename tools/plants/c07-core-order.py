ID="c07-core-order"; PROP="C07"
NEEDS="two points with equal outlier scores and different core distances"
BREAKS="Outlier scores with equal score are sorted by descending instead of ascending core distance."
EDITS=[("src/outlier_score.c","""		if (s1.coreDistance > s2.coreDistance)
			return 1;
		else if (s1.coreDistance < s2.coreDistance)
			return -1;""","""		if (s1.coreDistance < s2.coreDistance)
			return 1;
		else if (s1.coreDistance > s2.coreDistance)
			return -1;""")]
DEMO=r'''
#include "hdbscan/hdbscan.h"
int main() {
    double d[] = {0, 0, 0, 0, 10, 11, 12, 13, 40, 42, 44, 46};
    hdbscan *s = hdbscan_init(NULL, 3);
    hdbscan_run(s, d, 12, 1, TRUE, H_DOUBLE);
    int bad = 0;
    for (int i = 0; i < 12; i++) { outlier_score *o = s->outlierScores + i; printf("%d %f %f\n", o->id, o->score, o->coreDistance);
        if (i && (o[-1].score > o->score || (o[-1].score == o->score && o[-1].coreDistance > o->coreDistance))) bad = 1; }
    return bad;
}
'''
