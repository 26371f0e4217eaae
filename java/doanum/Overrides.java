package doanum;

import tlc2.overrides.ITLCOverrides;

public final class Overrides implements ITLCOverrides {
    @SuppressWarnings("rawtypes")
    public Class[] get() { return new Class[]{Ops.class, Host.class}; }
}
