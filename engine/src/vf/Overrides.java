package vf;

public class Overrides implements tlc2.overrides.ITLCOverrides {
  @SuppressWarnings("rawtypes")
  public Class[] get() { return new Class[] { RealOps.class, LibOps.class }; }
}
