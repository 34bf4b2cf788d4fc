import java.io.*;
import java.math.*;
import java.nio.charset.StandardCharsets;
import java.nio.file.*;
import java.util.*;
import tlc2.value.impl.*;
import tlc2.value.*;
import tlc2.tool.EvalException;
import util.UniqueString;

/** JSON reader/writer: floats become exact NumValues, integers TLC integers, objects records, arrays tuples. */
public final class NumJson {
  static final class P {
    final String s; int i = 0;
    P(String s) { this.s = s; }
    char c() { return s.charAt(i); }
    void ws() { while (i < s.length() && Character.isWhitespace(s.charAt(i))) i++; }
    Value v() {
      ws();
      switch (c()) {
        case '{': return obj();
        case '[': return arr();
        case '"': return new StringValue(str());
        case 't': i += 4; return BoolValue.ValTrue;
        case 'f': i += 5; return BoolValue.ValFalse;
        case 'n': i += 4; return new StringValue("null");
        case 'N': i += 3; return NumValue.NaN;
        case 'I': i += 8; return NumValue.PInf;
        default: return num();
      }
    }
    Value num() {
      int j = i;
      if (c() == '-' && s.startsWith("-Infinity", i)) { i += 9; return NumValue.NInf; }
      while (i < s.length() && "+-0123456789.eE".indexOf(c()) >= 0) i++;
      String t = s.substring(j, i);
      if (t.indexOf('.') < 0 && t.indexOf('e') < 0 && t.indexOf('E') < 0) {
        long n = Long.parseLong(t);
        if (Math.abs(n) < (1L << 31)) return IntValue.gen((int) n);
        return new NumValue(new BigDecimal(t));
      }
      return d(t);
    }
    static NumValue d(String t) {
      double x = Double.parseDouble(t);
      if (Double.isNaN(x)) return NumValue.NaN;
      if (Double.isInfinite(x)) return x > 0 ? NumValue.PInf : NumValue.NInf;
      return new NumValue(new BigDecimal(x).round(NumMath.MC));
    }
    String str() {
      StringBuilder b = new StringBuilder(); i++;
      while (c() != '"') {
        if (c() == '\\') {
          i++;
          switch (c()) {
            case 'n': b.append('\n'); break; case 't': b.append('\t'); break; case 'r': b.append('\r'); break;
            case 'u': b.append((char) Integer.parseInt(s.substring(i + 1, i + 5), 16)); i += 4; break;
            default: b.append(c());
          }
        } else b.append(c());
        i++;
      }
      i++; return b.toString();
    }
    Value arr() {
      List<Value> l = new ArrayList<>(); i++; ws();
      if (c() == ']') { i++; return new TupleValue(new Value[0]); }
      while (true) { l.add(v()); ws(); if (c() == ',') { i++; continue; } i++; break; }
      return new TupleValue(l.toArray(new Value[0]));
    }
    Value obj() {
      List<UniqueString> k = new ArrayList<>(); List<Value> l = new ArrayList<>(); i++; ws();
      if (c() == '}') { i++; return new RecordValue(new UniqueString[0], new Value[0], false); }
      while (true) {
        ws(); String key = str(); ws(); i++; Value x = v();
        k.add(UniqueString.uniqueStringOf(key)); l.add(x); ws();
        if (c() == ',') { i++; continue; } i++; break;
      }
      if (k.size() == 2 && k.get(0).toString().equals("$r")) {   // complex number
        NumValue re = Num.n(l.get(0)), im = Num.n(l.get(1));
        if (!re.fin() || !im.fin()) return NumValue.NaN;
        return new NumValue(re.re, im.re, 0);
      }
      return (Value) new RecordValue(k.toArray(new UniqueString[0]), l.toArray(new Value[0]), false).normalize();
    }
  }
  public static Value NJParse(final Value s) { return new P(((StringValue) s).val.toString()).v(); }
  /** The sequence of the values on the lines of a file (one JSON value per line). */
  public static Value NJLoad(final Value f) throws IOException {
    List<Value> l = new ArrayList<>();
    for (String line : Files.readAllLines(Paths.get(((StringValue) f).val.toString()), StandardCharsets.UTF_8))
      if (!line.isBlank()) l.add(new P(line).v());
    return new TupleValue(l.toArray(new Value[0]));
  }
  static void esc(StringBuilder b, String s) {
    b.append('"');
    for (char ch : s.toCharArray()) {
      if (ch == '"' || ch == '\\') b.append('\\').append(ch);
      else if (ch == '\n') b.append("\\n");
      else if (ch < 32) b.append(String.format("\\u%04x", (int) ch));
      else b.append(ch);
    }
    b.append('"');
  }
  static void w(StringBuilder b, Value v) {
    if (v instanceof NumValue) { b.append(((NumValue) v).json()); return; }
    if (v instanceof IntValue) { b.append(((IntValue) v).val); return; }
    if (v instanceof BoolValue) { b.append(((BoolValue) v).val); return; }
    if (v instanceof StringValue) { esc(b, ((StringValue) v).val.toString()); return; }
    if (v instanceof ModelValue) { esc(b, v.toString()); return; }
    if (v instanceof RecordValue) {
      RecordValue r = (RecordValue) v; b.append('{');
      for (int i = 0; i < r.names.length; i++) { if (i > 0) b.append(','); esc(b, r.names[i].toString()); b.append(':'); w(b, r.values[i]); }
      b.append('}'); return;
    }
    Value t = (v instanceof FcnLambdaValue || v instanceof FcnRcdValue || v instanceof TupleValue) ? (Value) v.toTuple() : null;
    if (t != null) {
      Value[] e = ((TupleValue) t).elems; b.append('[');
      for (int i = 0; i < e.length; i++) { if (i > 0) b.append(','); w(b, e[i]); }
      b.append(']'); return;
    }
    if (v instanceof FcnLambdaValue || v instanceof FcnRcdValue) {
      Value r0 = (Value) v.toRcd();
      if (r0 != null) { w(b, r0); return; }
      FcnRcdValue f = (FcnRcdValue) v.toFcnRcd(); b.append('[');
      Value[] dom = f.getDomainAsValues();
      for (int i = 0; i < dom.length; i++) { if (i > 0) b.append(','); b.append('['); w(b, dom[i]); b.append(','); w(b, f.values[i]); b.append(']'); }
      b.append(']'); return;
    }
    Value st = (Value) v.toSetEnum();
    if (st != null) {
      SetEnumValue se = (SetEnumValue) st; se.normalize(); b.append('[');
      for (int i = 0; i < se.elems.size(); i++) { if (i > 0) b.append(','); w(b, se.elems.elementAt(i)); }
      b.append(']'); return;
    }
    esc(b, v.toString());
  }
  public static Value NJStr(final Value v) { StringBuilder b = new StringBuilder(); w(b, v); return new StringValue(b.toString()); }
  /** Writes the JSON of v on a line of standard output starting with @@J; TRUE. */
  public static Value NJEmit(final Value v) {
    StringBuilder b = new StringBuilder("@@J "); w(b, v); b.append('\n');
    synchronized (NumJson.class) { System.out.print(b); System.out.flush(); }
    return BoolValue.ValTrue;
  }
  /** The value of an environment variable ("" when unset). */
  public static Value NJEnv(final Value k) {
    String e = System.getenv(((StringValue) k).val.toString());
    return new StringValue(e == null ? "" : e);
  }
}
