import java.io.*; import java.util.function.*; import java.text.Normalizer;
public class RefDump {
  static void rle(String prop, IntFunction<String> f) throws Exception {
    PrintWriter w=new PrintWriter(new OutputStreamWriter(new FileOutputStream("java_"+prop+".txt"),"UTF-8"));
    String prev=null;
    for(int c=0;c<=0x10FFFF;c++){ String v=f.apply(c); if(!v.equals(prev)){ w.println(String.format("%X\t%s",c,v)); prev=v; } }
    w.close();
  }
  static String hex(String s){ StringBuilder b=new StringBuilder(); for(int i=0;i<s.length();){int c=s.codePointAt(i); if(b.length()>0)b.append(' '); b.append(String.format("%04X",c)); i+=Character.charCount(c);} return b.toString(); }
  static void sparse(String prop, IntFunction<String> f) throws Exception {
    PrintWriter w=new PrintWriter(new OutputStreamWriter(new FileOutputStream("java_"+prop+".txt"),"UTF-8"));
    for(int c=0;c<=0x10FFFF;c++){ String v=f.apply(c); if(v!=null) w.println(String.format("%X\t%s",c,v)); }
    w.close();
  }
  public static void main(String[] a) throws Exception {
    rle("gc", c->""+Character.getType(c));
    rle("bc", c->""+Character.getDirectionality(c));
    rle("mirrored", c->""+Character.isMirrored(c));
    rle("script", c->Character.UnicodeScript.of(c).name());
    rle("block", c->{ Character.UnicodeBlock b=Character.UnicodeBlock.of(c); return b==null?"NO_BLOCK":b.toString();});
    rle("alphabetic", c->""+Character.isAlphabetic(c));
    rle("ideographic", c->""+Character.isIdeographic(c));
    rle("idstart", c->""+Character.isUnicodeIdentifierStart(c));
    rle("idpart", c->""+Character.isUnicodeIdentifierPart(c));
    rle("idign", c->""+Character.isIdentifierIgnorable(c));
    rle("lower", c->""+Character.isLowerCase(c));
    rle("upper", c->""+Character.isUpperCase(c));
    rle("white", c->""+Character.isWhitespace(c));
    rle("spacechar", c->""+Character.isSpaceChar(c));
    rle("digit", c->""+Character.digit(c,10));
    rle("numval", c->""+Character.getNumericValue(c));
    sparse("slc", c->Character.toLowerCase(c)!=c?Integer.toHexString(Character.toLowerCase(c)).toUpperCase():null);
    sparse("suc", c->Character.toUpperCase(c)!=c?Integer.toHexString(Character.toUpperCase(c)).toUpperCase():null);
    sparse("stc", c->Character.toTitleCase(c)!=c?Integer.toHexString(Character.toTitleCase(c)).toUpperCase():null);
    sparse("lc", c->{ if(c>=0xd800&&c<0xe000) return null; String s=new String(Character.toChars(c)); String t=s.toLowerCase(java.util.Locale.ROOT); return t.equals(s)?null:hex(t);});
    sparse("uc", c->{ if(c>=0xd800&&c<0xe000) return null; String s=new String(Character.toChars(c)); String t=s.toUpperCase(java.util.Locale.ROOT); return t.equals(s)?null:hex(t);});
    sparse("nfd", c->{ if(c>=0xd800&&c<0xe000) return null; String s=new String(Character.toChars(c)); String t=Normalizer.normalize(s,Normalizer.Form.NFD); return t.equals(s)?null:hex(t);});
    sparse("nfkd", c->{ if(c>=0xd800&&c<0xe000) return null; String s=new String(Character.toChars(c)); String t=Normalizer.normalize(s,Normalizer.Form.NFKD); return t.equals(s)?null:hex(t);});
  }
}
