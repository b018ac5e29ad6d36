ID="c26-cache"; PROP="C26"
NEEDS="getClusterMap, then another run or re-run of the same object, then getClusterMap again"
BREAKS="The cluster map is built once per object and is not the map of the current labels after another run."
EDITS=[("modules/java/src/bw/co/roguesystems/Hdbscan.java","""		HashMap<Integer, ArrayList<Integer>> table = new HashMap<Integer, ArrayList<Integer>>();
""","""		if(clusterMap != null && labels != null && clusterMap.size() > 0){
			return clusterMap;
		}

		HashMap<Integer, ArrayList<Integer>> table = new HashMap<Integer, ArrayList<Integer>>();
"""),("modules/java/src/bw/co/roguesystems/Hdbscan.java","""	private int minPoints;
""","""	private int minPoints;
	private HashMap<Integer, ArrayList<Integer>> clusterMap;
"""),("modules/java/src/bw/co/roguesystems/Hdbscan.java","""		return table;
""","""		clusterMap = table;
		return table;
""")]
FILES={"demo.sh":r'''#!/bin/bash
# run in the repository after the build; exit 0: behaves as it should
D=$(cd "$(dirname "$0")" && pwd); R=$(pwd); T=$(mktemp -d) || exit 3
trap 'rm -rf "$T"' EXIT
J=$(dirname "$(dirname "$(readlink -f "$(which javac)")")")
I="-I$R/_build -I$R/include -I$R/modules/utils/include -I$R/modules/collections/include -I$J/include -I$J/include/linux -I$R/modules/java/src"
F="-w -g -O1 -fPIC"
for f in "$R"/src/*.c "$R"/modules/collections/src/*.c "$R"/modules/utils/src/*.c; do gcc $F $I -c "$f" -o "$T/$(basename "$f").o" & done
for f in "$R"/src/*.cpp "$R"/modules/java/src/*.cpp; do g++ -std=gnu++11 $F $I -c "$f" -o "$T/j$(basename "$f").o" & done
wait
g++ -shared "$T"/*.o -o "$T/libhdbscan_java.so" -lm || exit 3
javac -d "$T" "$R/modules/java/src/bw/co/roguesystems/Hdbscan.java" "$D/Demo.java" || exit 3
cd "$T" && timeout 120 java -Djava.library.path="$T" -cp "$T" Demo
''',"Demo.java":r'''
import bw.co.roguesystems.Hdbscan;
import java.util.*;
public class Demo {
    static void check(Hdbscan h, String when) {
        HashMap<Integer, ArrayList<Integer>> want = new HashMap<>();
        int[] l = h.getLabels();
        for (int i = 0; i < l.length; i++) want.computeIfAbsent(l[i], k -> new ArrayList<>()).add(i);
        Map<Integer, ArrayList<Integer>> got = h.getClusterMap();
        System.out.println(when + " " + want + " " + got);
        if (!want.equals(got)) System.exit(1);
    }
    public static void main(String[] a) {
        double[][] x = {{0}, {1}, {2}, {3}, {10}, {11}, {12}, {30}, {31}, {32}, {33}, {34}, {60}};
        Hdbscan h = new Hdbscan(3);
        h.run(x);
        check(h, "run");
        h.reRun(5);
        check(h, "re-run");
        h.run(new double[][] {{0}, {1}, {2}, {50}, {51}, {52}});
        check(h, "second run");
    }
}
'''}
