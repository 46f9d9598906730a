package tlc2.overrides;

public class BigNumIndex implements ITLCOverrides {
  public Class[] get() { return new Class[] {BigNumOverrides.class}; }
}
