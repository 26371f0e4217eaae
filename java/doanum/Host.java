package doanum;

import tla2sany.semantic.ExprOrOpArgNode;
import tlc2.overrides.Evaluation;
import tlc2.overrides.TLAPlusOperator;
import tlc2.tool.TLCState;
import tlc2.tool.coverage.CostModel;
import tlc2.tool.impl.Tool;
import tlc2.util.Context;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.RecordValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.Value;
import util.UniqueString;

/** Evaluators of module Host: reporting, and total evaluation of verdicts. */
public final class Host {
    static final Object LOCK = new Object();
    private static java.io.PrintStream out;

    static java.io.PrintStream stream() {
        if (out == null) {
            String f = System.getProperty("doa.out");
            try {
                out = f == null ? System.out : new java.io.PrintStream(new java.io.FileOutputStream(f, true), false, "UTF-8");
            } catch (java.io.IOException e) { throw new RuntimeException(e); }
        }
        return out;
    }

    /** one line of output; TRUE */
    @TLAPlusOperator(identifier = "Report", module = "Host", warn = false)
    public static Value report(Value s) {
        String t = s instanceof StringValue ? ((StringValue) s).val.toString() : s.toString();
        synchronized (LOCK) { stream().println(t); stream().flush(); }
        return BoolValue.ValTrue;
    }

    static final UniqueString OK = UniqueString.of("ok"), VAL = UniqueString.of("val"), ERR = UniqueString.of("err");

    /** [ok |-> TRUE, val |-> e], or [ok |-> FALSE, err |-> message] when e has no value */
    @Evaluation(definition = "Try", module = "Host", warn = false, silent = true)
    public static Value tryEval(final Tool tool, final ExprOrOpArgNode[] args, final Context c, final TLCState s0,
                                final TLCState s1, final int control, final CostModel cm) {
        String msg;
        try {
            Value v = tool.eval(args[0], c, s0, s1, control, cm);
            v.deepNormalize();
            return new RecordValue(new UniqueString[]{OK, VAL}, new Value[]{BoolValue.ValTrue, v}, false);
        } catch (StackOverflowError e) {
            msg = "stack overflow";
        } catch (RuntimeException | AssertionError e) {
            msg = String.valueOf(e.getMessage());
        }
        if (System.getProperty("doa.debug") != null) System.err.println(msg);
        msg = msg.replace('\n', ' ').replace('"', '\'').replace('\\', '/');
        if (msg.length() > 250) msg = msg.substring(0, 80) + " ... " + msg.substring(msg.length() - 160);
        return new RecordValue(new UniqueString[]{OK, ERR}, new Value[]{BoolValue.ValFalse, new StringValue(msg)}, false);
    }

    /** string helpers */
    @TLAPlusOperator(identifier = "Int2Str", module = "Host", warn = false)
    public static Value int2str(Value n) { return new StringValue(Integer.toString(((IntValue) n).val)); }
}
