package verif;

import tlc2.overrides.ITLCOverrides;

/** Named in -Dtlc2.overrides.TLCOverrides=...; TLC replaces the operators of the listed classes. */
public class Overrides implements ITLCOverrides {
  @SuppressWarnings("rawtypes")
  @Override
  public Class[] get() {
    return new Class[] {BF.class};
  }
}
