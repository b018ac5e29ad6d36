import bw.co.roguesystems.Hdbscan;
import java.io.*;
import java.util.*;

/** Executes the operations of java_worker.py on Hdbscan objects. */
public class Driver {
    static native long live();
    static native void hook();
    static native long obtained();
    static native long most();
    static boolean loaded = false;
    static void count() { if (loaded) hook(); }
    static Hdbscan[] o = new Hdbscan[3];
    static List<Hdbscan> dropped = new ArrayList<>();
    static List<int[]> held = new ArrayList<>(), heldCopy = new ArrayList<>();
    static List<Map<Integer, ArrayList<Integer>>> maps = new ArrayList<>();
    static List<String> mapText = new ArrayList<>();
    static DataOutputStream out;

    static void ints(int[] a) throws IOException {
        if (a == null) { out.writeInt(-1); return; }
        out.writeInt(a.length);
        byte[] b = new byte[4 * a.length];
        java.nio.ByteBuffer.wrap(b).asIntBuffer().put(a);
        out.write(b);
    }
    static double[][] data(DataInputStream in) throws IOException {
        int r = in.readInt(), c = in.readInt();
        byte[] b = new byte[8 * r * c];
        in.readFully(b);
        java.nio.DoubleBuffer q = java.nio.ByteBuffer.wrap(b).asDoubleBuffer();
        double[][] d = new double[r][c];
        for (int i = 0; i < r; i++) q.get(d[i]);
        return d;
    }
    static double[][] copy(double[][] d) {
        double[][] e = new double[d.length][];
        for (int i = 0; i < d.length; i++) e[i] = d[i].clone();
        return e;
    }
    public static void main(String[] a) throws Exception {
        DataInputStream in = new DataInputStream(new BufferedInputStream(new FileInputStream(a[0]), 1 << 16));
        out = new DataOutputStream(new BufferedOutputStream(new FileOutputStream(a[1]), 1 << 16));
        while (true) {
            int op = in.read();
            if (op < 0) return;
            try {
                step(op, in);
            } catch (Throwable t) {
                out.writeInt(-100);
                out.writeUTF(t.toString());
            }
            out.flush();
        }
    }
    static void step(int op, DataInputStream in) throws Exception {
        int s = in.readInt();
        count();
        switch (op) {
        case 1: { // new
            int mp = in.readInt();
            if (o[s] != null) dropped.add(o[s]);
            o[s] = new Hdbscan(mp);
            loaded = true;
            count(); // the library is loaded now
            ints(o[s].getLabels());
            return;
        }
        case 2: { // run
            double[][] d = data(in), e = copy(d);
            int mutate = in.readInt();
            o[s].run(d);
            if (mutate == 1) for (double[] r : d) Arrays.fill(r, 0);
            else if (!Arrays.deepEquals(d, e)) { out.writeInt(-101); return; }
            ints(o[s].getLabels());
            return;
        }
        case 3: { int mp = in.readInt(); o[s].reRun(mp); ints(o[s].getLabels()); return; }
        case 4: { // cluster map
            HashMap<Integer, ArrayList<Integer>> m = o[s].getClusterMap();
            if (m == null) { out.writeInt(-1); return; }
            out.writeInt(m.size());
            for (Map.Entry<Integer, ArrayList<Integer>> x : m.entrySet()) {
                out.writeInt(x.getKey());
                int[] v = new int[x.getValue().size()];
                for (int i = 0; i < v.length; i++) v[i] = x.getValue().get(i);
                ints(v);
            }
            maps.add(m); mapText.add(m.toString());
            return;
        }
        case 5: o[s].cleanHdbscan(); ints(o[s].getLabels()); return;
        case 6: dropped.add(o[s]); o[s] = null; out.writeInt(0); return;
        case 7: { // end of the program: release everything
            for (Hdbscan h : o) if (h != null) { count(); h.cleanHdbscan(); }
            for (Hdbscan h : dropped) { count(); h.cleanHdbscan(); }
            o = new Hdbscan[3]; dropped.clear(); held.clear(); heldCopy.clear(); maps.clear(); mapText.clear();
            out.writeInt(0);
            out.writeLong(live());
            out.writeLong(obtained());
            out.writeLong(most());
            return;
        }
        case 8: { int[] l = o[s].getLabels(); if (l != null) { held.add(l); heldCopy.add(l.clone()); } out.writeInt(0); return; }
        case 9: { // are held results as they were?
            int bad = 0;
            for (int i = 0; i < held.size(); i++) if (!Arrays.equals(held.get(i), heldCopy.get(i))) bad = 1;
            for (int i = 0; i < maps.size(); i++) if (!maps.get(i).toString().equals(mapText.get(i))) bad = 2;
            out.writeInt(bad);
            return;
        }
        case 10: { // unsupported data sets
            int k = in.readInt();
            double[][] d = k == 0 ? null : k == 1 ? new double[0][] : k == 2 ? new double[0][3] : k == 3 ? new double[][] {null} : k == 4 ? new double[][] {{1, 2}, null, {3, 4}}
                : k == 5 ? new double[][] {{1, 2, 3}, {4}, {5, 6, 7}} : k == 6 ? new double[][] {{1}, {2, 3}} : new double[][] {{1, 2}, {3, 4}, {}};
            try { o[s].run(d); out.writeInt(0); } catch (RuntimeException e) { out.writeInt(1); }
            ints(o[s].getLabels());
            return;
        }
        case 11: { // the objects s and t run at the same time
            int t = in.readInt();
            double[][] d = data(in), e = data(in);
            Hdbscan x = o[s], y = o[t];
            Throwable[] err = new Throwable[2];
            Thread u = new Thread(() -> { try { count(); x.run(d); } catch (Throwable q) { err[0] = q; } }), v = new Thread(() -> { try { count(); y.run(e); } catch (Throwable q) { err[1] = q; } });
            u.start(); v.start(); u.join(); v.join();
            if (err[0] != null) throw err[0] instanceof Exception ? (Exception) err[0] : new Exception(err[0]);
            if (err[1] != null) throw err[1] instanceof Exception ? (Exception) err[1] : new Exception(err[1]);
            ints(x.getLabels()); ints(y.getLabels());
            return;
        }
        case 12: { // an array handed out belongs to the caller
            int[] l = o[s].getLabels();
            if (l != null) { out.writeInt(l.length); } else out.writeInt(-1);
            return;
        }
        }
    }
}
