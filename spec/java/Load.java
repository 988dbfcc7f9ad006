import java.util.concurrent.ConcurrentHashMap;
import tlc2.value.IValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.Value;

/** TLC override of Load.tla: a cached Json!JsonDeserialize. */
public class Load {
  private static final ConcurrentHashMap<String, Value> CACHE = new ConcurrentHashMap<>();

  public static Value Load(final Value path) throws Exception {
    final String p = ((StringValue) path).val.toString();
    Value v = CACHE.get(p);
    if (v != null) return v;
    synchronized (CACHE) {
      v = CACHE.get(p);
      if (v == null) {
        v = (Value) tlc2.overrides.Json.deserialize((StringValue) path);
        v.deepNormalize();
        v.fingerPrint(0L);
        CACHE.put(p, v);
      }
    }
    return v;
  }
}
