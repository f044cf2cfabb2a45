/* A repeatable RandomElement(): the same VERIF_SEED gives the same behaviours. */
import tlc2.value.impl.*;
import java.util.Arrays;
import java.util.Comparator;
import java.util.Random;

public class ProcessorGen {
	static final Random rnd = new Random(seed());

	static long seed()
	{
		String s = System.getenv("PICKSEED");

		return s == null ? 1 : Long.parseLong(s);
	}

	/* A text of a value that does not depend on TLC's internal order. */
	static String canon(Value x)
	{
		if (x instanceof RecordValue) {
			RecordValue r = (RecordValue) x;
			String[] e = new String[r.names.length];

			for (int i = 0; i < e.length; ++i)
				e[i] = r.names[i].toString() + ":" +
					canon(r.values[i]);
			Arrays.sort(e);
			return String.join(",", e);
		}
		if (x instanceof TupleValue) {
			TupleValue t = (TupleValue) x;
			StringBuilder b = new StringBuilder("<");

			for (Value e : t.elems)
				b.append(canon(e)).append(",");
			return b.toString();
		}
		if (x instanceof SetEnumValue) {
			Value[] v = ((SetEnumValue) x).elems.toArray();
			String[] e = new String[v.length];

			for (int i = 0; i < e.length; ++i)
				e[i] = canon(v[i]);
			Arrays.sort(e);
			return "{" + String.join(",", e);
		}
		if (x instanceof FcnRcdValue || x instanceof FcnLambdaValue) {
			Value t = (Value) x.toTuple();
			Value r = t == null ? (Value) x.toRcd() : t;

			if (r != null)
				return canon(r);
		}
		return x.toString();
	}

	public static synchronized Value Pick(Value s)
	{
		SetEnumValue e = (SetEnumValue) s.toSetEnum();

		e.normalize();
		if (e.elems.size() <= 1)
			return e;

		/* TLC's order of strings varies from run to run. */
		Value[] v = e.elems.toArray();
		Arrays.sort(v, Comparator.comparing(x -> canon(x)));
		return new SetEnumValue(new Value[] {
			v[rnd.nextInt(v.length)]
		}, true);
	}
}
