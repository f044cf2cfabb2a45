/* TLC evaluates the operators of Word.tla by these methods.  They must equal
 * the definitions there; WordCheck.tla compares them. */
import tlc2.value.impl.*;

public class Word {
	static long of(Value v)
	{
		TupleValue t = (TupleValue) v.toTuple();
		long r = 0;

		for (int i = 7; i >= 0; --i)
			r = r << 8 | (((IntValue) t.elems[i]).val & 0xff);
		return r;
	}

	static Value to(long v)
	{
		Value[] e = new Value[8];

		for (int i = 0; i < 8; ++i) {
			e[i] = IntValue.gen((int) (v & 0xff));
			v >>>= 8;
		}
		return new TupleValue(e);
	}

	static int in(Value v)
	{
		return ((IntValue) v).val;
	}

	static long mask(int n)
	{
		return n >= 8 ? -1L : n <= 0 ? 0 : (1L << (8 * n)) - 1;
	}

	public static Value WTrunc(Value w, Value n)
	{
		return to(of(w) & mask(in(n)));
	}

	public static Value WMerge(Value hi, Value lo, Value n)
	{
		long m = mask(in(n));

		return to((of(hi) & ~m) | (of(lo) & m));
	}

	public static Value WSext(Value w, Value n)
	{
		int k = 64 - 8 * in(n);

		return to((of(w) << k) >> k);
	}

	public static Value WAnd(Value a, Value b) { return to(of(a) & of(b)); }
	public static Value WOr(Value a, Value b) { return to(of(a) | of(b)); }
	public static Value WNot(Value a) { return to(~of(a)); }
	public static Value WAdd(Value a, Value b) { return to(of(a) + of(b)); }
	public static Value WNeg(Value a) { return to(-of(a)); }
	public static Value WSub(Value a, Value b) { return to(of(a) - of(b)); }

	public static Value WAddI(Value a, Value n)
	{
		return to(of(a) + in(n));
	}

	public static Value WLT(Value a, Value b)
	{
		return Long.compareUnsigned(of(a), of(b)) < 0 ?
			BoolValue.ValTrue : BoolValue.ValFalse;
	}

	public static Value WLE(Value a, Value b)
	{
		return Long.compareUnsigned(of(a), of(b)) <= 0 ?
			BoolValue.ValTrue : BoolValue.ValFalse;
	}

	public static Value WShl(Value a, Value n)
	{
		return to(of(a) << in(n));
	}

	public static Value WShr(Value a, Value n)
	{
		return to(of(a) >>> in(n));
	}

	public static Value WBit(Value a, Value n)
	{
		return IntValue.gen((int) (of(a) >>> in(n) & 1));
	}

	public static Value WPow2(Value n) { return to(1L << in(n)); }

	public static Value WMulI(Value a, Value n)
	{
		return to(of(a) * in(n));
	}

	public static Value WMul(Value a, Value b) { return to(of(a) * of(b)); }

	public static Value TopBit(Value a)
	{
		return IntValue.gen(63 - Long.numberOfLeadingZeros(of(a)));
	}

	public static Value WDiv(Value a, Value b)
	{
		return to(Long.divideUnsigned(of(a), of(b)));
	}
}
