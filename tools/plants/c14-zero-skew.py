ID="c14-zero-skew"; PROP="C14"
NEEDS="a skewness of exactly 0 with positive kurtosis"
BREAKS="A skewness of zero with positive kurtosis scores 1 instead of -1 in the validity of the clustering."
EDITS=[("src/hdbscan.c","	} else if(skew_cr < 0.0 && kurtosis_cr > 0.0){","	} else if(skew_cr <= 0.0 && kurtosis_cr > 0.0){")]
DEMO=r'''
#include "hdbscan/hdbscan.h"
int main() {
    clustering_stats st;
    memset(&st, 0, sizeof st);
    st.count = 5;
    st.coreDistanceValues.skewness = 0; st.coreDistanceValues.kurtosis = 1;
    st.intraDistanceValues.skewness = 1; st.intraDistanceValues.kurtosis = 1;
    int v = hdbscan_analyse_stats(&st);
    printf("validity %d\n", v);
    return v != 1;
}
'''
