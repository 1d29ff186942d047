// Java implementations of the cryptographic primitives that the TLA+ specification
// leaves abstract (module Prims).  They are independent of the code under test:
// java.security.MessageDigest for SHA-2, an own RIPEMD-160, BigInteger for secp256k1.
import java.math.BigInteger;
import java.security.MessageDigest;
import java.util.HashMap;
import java.util.LinkedHashMap;
import java.util.Map;
import tlc2.overrides.ITLCOverrides;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.*;

public class UbtcOverrides implements ITLCOverrides {
    @Override
    public Class[] get() { return new Class[] { UbtcOverrides.class }; }

    // ---------------------------------------------------------------- values
    static byte[] bytes(Value v) {
        if (v instanceof StringValue) { // hex literal
            return unhex(((StringValue) v).val.toString());
        }
        TupleValue t = (TupleValue) v.toTuple();
        if (t == null) throw new RuntimeException("not a byte sequence: " + v);
        byte[] r = new byte[t.elems.length];
        for (int i = 0; i < r.length; i++) r[i] = (byte) ((IntValue) t.elems[i]).val;
        return r;
    }
    static final IntValue[] BV = new IntValue[256];
    static { for (int i = 0; i < 256; i++) BV[i] = IntValue.gen(i); }
    static Value seq(byte[] b) {
        Value[] e = new Value[b.length];
        for (int i = 0; i < b.length; i++) e[i] = BV[b[i] & 0xff];
        return new TupleValue(e);
    }
    static byte[] unhex(String s) {
        if (s.length() % 2 != 0) throw new RuntimeException("odd hex");
        byte[] r = new byte[s.length() / 2];
        for (int i = 0; i < r.length; i++) r[i] = (byte) Integer.parseInt(s.substring(2 * i, 2 * i + 2), 16);
        return r;
    }
    static final char[] HD = "0123456789abcdef".toCharArray();
    static String hex(byte[] b) {
        char[] c = new char[2 * b.length];
        for (int i = 0; i < b.length; i++) { c[2 * i] = HD[(b[i] >> 4) & 15]; c[2 * i + 1] = HD[b[i] & 15]; }
        return new String(c);
    }

    @TLAPlusOperator(identifier = "Hex", module = "Prims", warn = false)
    public static Value Hex(StringValue s) { return seq(unhex(s.val.toString())); }
    @TLAPlusOperator(identifier = "ToHexStr", module = "Prims", warn = false)
    public static Value ToHexStr(Value b) { return new StringValue(hex(bytes(b))); }
    @TLAPlusOperator(identifier = "Ascii", module = "Prims", warn = false)
    public static Value Ascii(StringValue s) { return seq(s.val.toString().getBytes(java.nio.charset.StandardCharsets.ISO_8859_1)); }
    @TLAPlusOperator(identifier = "AsciiStr", module = "Prims", warn = false)
    public static Value AsciiStr(Value b) { return new StringValue(new String(bytes(b), java.nio.charset.StandardCharsets.ISO_8859_1)); }

    // ---------------------------------------------------------------- hashes
    static byte[] md(String alg, byte[]... parts) {
        try {
            MessageDigest m = MessageDigest.getInstance(alg);
            for (byte[] p : parts) m.update(p);
            return m.digest();
        } catch (Exception e) { throw new RuntimeException(e); }
    }
    static byte[] hmac(String alg, int block, byte[] key, byte[]... data) {
        if (key.length > block) key = md(alg, key);
        byte[] k = java.util.Arrays.copyOf(key, block), i = new byte[block], o = new byte[block];
        for (int j = 0; j < block; j++) { i[j] = (byte) (k[j] ^ 0x36); o[j] = (byte) (k[j] ^ 0x5c); }
        byte[][] p = new byte[data.length + 1][];
        p[0] = i; System.arraycopy(data, 0, p, 1, data.length);
        return md(alg, o, md(alg, p));
    }
    @TLAPlusOperator(identifier = "RealSha256", module = "Prims", warn = false)
    public static Value Sha256(Value b) { return seq(md("SHA-256", bytes(b))); }
    @TLAPlusOperator(identifier = "RealSha512", module = "Prims", warn = false)
    public static Value Sha512(Value b) { return seq(md("SHA-512", bytes(b))); }
    @TLAPlusOperator(identifier = "RealHmacSha256", module = "Prims", warn = false)
    public static Value HmacSha256(Value k, Value d) { return seq(hmac("SHA-256", 64, bytes(k), bytes(d))); }
    @TLAPlusOperator(identifier = "RealHmacSha512", module = "Prims", warn = false)
    public static Value HmacSha512(Value k, Value d) { return seq(hmac("SHA-512", 128, bytes(k), bytes(d))); }
    static final Map<String, Value> pbCache = new HashMap<>();
    @TLAPlusOperator(identifier = "RealPbkdf2Sha512", module = "Prims", warn = false)
    public static synchronized Value Pbkdf2Sha512(Value pw, Value salt, IntValue iter, IntValue dkLen) {
        byte[] p = bytes(pw), s = bytes(salt);
        int it = iter.val, dl = dkLen.val;
        String key = hex(p) + ":" + hex(s) + ":" + it + ":" + dl;
        Value c = pbCache.get(key);
        if (c != null) return c;
        try {
            byte[] out = new byte[dl];
            if (p.length > 128) p = md("SHA-512", p);
            byte[] k = java.util.Arrays.copyOf(p, 128), ik = new byte[128], ok = new byte[128];
            for (int j = 0; j < 128; j++) { ik[j] = (byte) (k[j] ^ 0x36); ok[j] = (byte) (k[j] ^ 0x5c); }
            MessageDigest im = MessageDigest.getInstance("SHA-512"), om = MessageDigest.getInstance("SHA-512");
            im.update(ik); om.update(ok);
            for (int blk = 1, pos = 0; pos < dl; blk++, pos += 64) {
                byte[] u = prf(im, om, s, new byte[] { (byte) (blk >> 24), (byte) (blk >> 16), (byte) (blk >> 8), (byte) blk });
                byte[] t = u.clone();
                for (int i = 1; i < it; i++) {
                    u = prf(im, om, u, new byte[0]);
                    for (int j = 0; j < 64; j++) t[j] ^= u[j];
                }
                System.arraycopy(t, 0, out, pos, Math.min(64, dl - pos));
            }
            c = seq(out);
            pbCache.put(key, c);
            return c;
        } catch (Exception e) { throw new RuntimeException(e); }
    }
    static byte[] prf(MessageDigest im, MessageDigest om, byte[] a, byte[] b) throws Exception {
        MessageDigest i = (MessageDigest) im.clone(), o = (MessageDigest) om.clone();
        i.update(a); i.update(b);
        o.update(i.digest());
        return o.digest();
    }
    // RIPEMD-160, from the published description of the algorithm
    static final int[] RL = {
        0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15, 7,4,13,1,10,6,15,3,12,0,9,5,2,14,11,8,
        3,10,14,4,9,15,8,1,2,7,0,6,13,11,5,12, 1,9,11,10,0,8,12,4,13,3,7,15,14,5,6,2,
        4,0,5,9,7,12,2,10,14,1,3,8,11,6,15,13 };
    static final int[] RR = {
        5,14,7,0,9,2,11,4,13,6,15,8,1,10,3,12, 6,11,3,7,0,13,5,10,14,15,8,12,4,9,1,2,
        15,5,1,3,7,14,6,9,11,8,12,2,10,0,4,13, 8,6,4,1,3,11,15,0,5,12,2,13,9,7,10,14,
        12,15,10,4,1,5,8,7,6,2,13,14,0,3,9,11 };
    static final int[] SL = {
        11,14,15,12,5,8,7,9,11,13,14,15,6,7,9,8, 7,6,8,13,11,9,7,15,7,12,15,9,11,7,13,12,
        11,13,6,7,14,9,13,15,14,8,13,6,5,12,7,5, 11,12,14,15,14,15,9,8,9,14,5,6,8,6,5,12,
        9,15,5,11,6,8,13,12,5,12,13,14,11,8,5,6 };
    static final int[] SR = {
        8,9,9,11,13,15,15,5,7,7,8,11,14,14,12,6, 9,13,15,7,12,8,9,11,7,7,12,7,6,15,13,11,
        9,7,15,11,8,6,6,14,12,13,5,14,13,13,7,5, 15,5,8,11,14,14,6,14,6,9,12,9,12,5,15,8,
        8,5,12,9,12,5,14,6,8,13,6,5,15,13,11,11 };
    static final int[] KL = { 0, 0x5a827999, 0x6ed9eba1, 0x8f1bbcdc, 0xa953fd4e };
    static final int[] KR = { 0x50a28be6, 0x5c4dd124, 0x6d703ef3, 0x7a6d76e9, 0 };
    static int f(int j, int x, int y, int z) {
        switch (j) { case 0: return x ^ y ^ z; case 1: return (x & y) | (~x & z); case 2: return (x | ~y) ^ z;
                     case 3: return (x & z) | (y & ~z); default: return x ^ (y | ~z); }
    }
    static final class Rmd {
        final int[] h = { 0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0 }, x = new int[16];
        final byte[] buf = new byte[64]; int fill = 0; long len = 0;
        void block(byte[] p, int o) {
            for (int i = 0; i < 16; i++) x[i] = (p[o + 4 * i] & 255) | (p[o + 4 * i + 1] & 255) << 8 | (p[o + 4 * i + 2] & 255) << 16 | (p[o + 4 * i + 3] & 255) << 24;
            int a = h[0], b = h[1], c = h[2], d = h[3], e = h[4], A = a, B = b, C = c, D = d, E = e;
            for (int j = 0; j < 80; j++) {
                int t = Integer.rotateLeft(a + f(j / 16, b, c, d) + x[RL[j]] + KL[j / 16], SL[j]) + e;
                a = e; e = d; d = Integer.rotateLeft(c, 10); c = b; b = t;
                t = Integer.rotateLeft(A + f(4 - j / 16, B, C, D) + x[RR[j]] + KR[j / 16], SR[j]) + E;
                A = E; E = D; D = Integer.rotateLeft(C, 10); C = B; B = t;
            }
            int t = h[1] + c + D; h[1] = h[2] + d + E; h[2] = h[3] + e + A; h[3] = h[4] + a + B; h[4] = h[0] + b + C; h[0] = t;
        }
        void update(byte[] m) {
            len += m.length; int i = 0;
            while (i < m.length) {
                if (fill == 0 && m.length - i >= 64) { block(m, i); i += 64; continue; }
                buf[fill++] = m[i++];
                if (fill == 64) { block(buf, 0); fill = 0; }
            }
        }
        byte[] digest() {
            long bits = 8 * len; byte[] pad = new byte[(fill < 56 ? 64 : 128) - fill]; pad[0] = (byte) 0x80;
            for (int i = 0; i < 8; i++) pad[pad.length - 8 + i] = (byte) (bits >>> (8 * i));
            update(pad);
            byte[] r = new byte[20];
            for (int i = 0; i < 20; i++) r[i] = (byte) (h[i / 4] >>> (8 * (i % 4)));
            return r;
        }
    }
    static byte[] ripemd(byte[] m) { Rmd r = new Rmd(); r.update(m); return r.digest(); }
    @TLAPlusOperator(identifier = "LongDigest", module = "TraceCodec", warn = false)
    public static Value LongDigest(StringValue fv, Value key, Value data, IntValue times, Value tail) {
        try {
            String f = fv.val.toString(); byte[] d = bytes(data), t = bytes(tail), k = bytes(key); int n = times.val, per = (1 << 20) / d.length;
            byte[] big = new byte[per * d.length]; for (int i = 0; i < per; i++) System.arraycopy(d, 0, big, i * d.length, d.length);
            boolean big512 = f.endsWith("512"); String alg = big512 ? "SHA-512" : "SHA-256"; int block = big512 ? 128 : 64;
            boolean mac = f.startsWith("hmac");
            if (mac && k.length > block) k = md(alg, k);
            byte[] ip = java.util.Arrays.copyOf(k, block), op = ip.clone();
            for (int j = 0; j < block; j++) { ip[j] ^= 0x36; op[j] ^= 0x5c; }
            if (f.equals("rmd160")) {
                Rmd r = new Rmd(); for (; n >= per; n -= per) r.update(big); for (; n > 0; n--) r.update(d); r.update(t); return seq(r.digest());
            }
            MessageDigest m = MessageDigest.getInstance(alg);
            if (mac) m.update(ip);
            for (; n >= per; n -= per) m.update(big);
            for (; n > 0; n--) m.update(d);
            m.update(t);
            byte[] h = m.digest();
            if (mac) h = md(alg, op, h);
            else if (f.equals("dsha")) h = md(alg, h);
            else if (f.equals("hash160")) h = ripemd(h);
            return seq(h);
        } catch (Exception e) { throw new RuntimeException(e); }
    }
    @TLAPlusOperator(identifier = "RealRipemd160", module = "Prims", warn = false)
    public static Value Ripemd160(Value b) { return seq(ripemd(bytes(b))); }

    // ---------------------------------------------------------------- modular arithmetic on big-endian byte strings
    static final BigInteger P = new BigInteger("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEFFFFFC2F", 16);
    static final BigInteger N = new BigInteger("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141", 16);
    static final BigInteger GX = new BigInteger("79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798", 16);
    static final BigInteger GY = new BigInteger("483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8", 16);
    static final BigInteger TWO = BigInteger.TWO, THREE = BigInteger.valueOf(3), SEVEN = BigInteger.valueOf(7);
    static BigInteger num(Value v) { return new BigInteger(1, bytes(v)); }
    static byte[] be(BigInteger x, int w) {
        byte[] b = x.toByteArray(), r = new byte[w];
        int n = Math.min(w, b.length);
        System.arraycopy(b, b.length - n, r, w - n, n);
        return r;
    }
    static Value sc(BigInteger x) { return seq(be(x.mod(N), 32)); }
    @TLAPlusOperator(identifier = "RealSAdd", module = "Prims", warn = false)
    public static Value SAdd(Value a, Value b) { return sc(num(a).add(num(b))); }
    @TLAPlusOperator(identifier = "RealSMul", module = "Prims", warn = false)
    public static Value SMul(Value a, Value b) { return sc(num(a).multiply(num(b))); }
    @TLAPlusOperator(identifier = "RealSNeg", module = "Prims", warn = false)
    public static Value SNeg(Value a) { return sc(num(a).negate()); }
    @TLAPlusOperator(identifier = "RealSInv", module = "Prims", warn = false)
    public static Value SInv(Value a) { BigInteger x = num(a).mod(N); return sc(x.signum() == 0 ? x : x.modInverse(N)); }
    @TLAPlusOperator(identifier = "RealSRed", module = "Prims", warn = false)
    public static Value SRed(Value a) { return sc(num(a)); }
    // exact big-number helpers used by the base58/base43 specification's cross-check
    @TLAPlusOperator(identifier = "RealBigDigits", module = "Prims", warn = false)
    public static Value BigDigits(Value a, IntValue base) {
        BigInteger x = num(a), b = BigInteger.valueOf(base.val);
        java.util.ArrayList<Value> r = new java.util.ArrayList<>();
        while (x.signum() > 0) { BigInteger[] q = x.divideAndRemainder(b); r.add(IntValue.gen(q[1].intValue())); x = q[0]; }
        java.util.Collections.reverse(r);
        return new TupleValue(r.toArray(new Value[0]));
    }
    @TLAPlusOperator(identifier = "RealBigBytes", module = "Prims", warn = false)
    public static Value BigBytes(Value digits, IntValue base) {
        TupleValue t = (TupleValue) digits.toTuple();
        BigInteger x = BigInteger.ZERO, b = BigInteger.valueOf(base.val);
        for (Value d : t.elems) x = x.multiply(b).add(BigInteger.valueOf(((IntValue) d).val));
        int w = (x.bitLength() + 7) / 8;
        return seq(be(x, w));
    }

    // ---------------------------------------------------------------- secp256k1 (points: <<>> is infinity, else x||y, 64 bytes)
    static BigInteger[] pt(Value v) {
        byte[] b = bytes(v);
        if (b.length == 0) return null;
        if (b.length != 64) throw new RuntimeException("point width " + b.length);
        return new BigInteger[] { new BigInteger(1, java.util.Arrays.copyOfRange(b, 0, 32)), new BigInteger(1, java.util.Arrays.copyOfRange(b, 32, 64)) };
    }
    static Value ptv(BigInteger[] p) {
        if (p == null) return new TupleValue(new Value[0]);
        byte[] r = new byte[64];
        System.arraycopy(be(p[0], 32), 0, r, 0, 32);
        System.arraycopy(be(p[1], 32), 0, r, 32, 32);
        return seq(r);
    }
    // Jacobian arithmetic
    static BigInteger[] jdbl(BigInteger[] p) {
        if (p == null || p[1].signum() == 0) return null;
        BigInteger y2 = p[1].multiply(p[1]).mod(P);
        BigInteger s = p[0].multiply(y2).shiftLeft(2).mod(P);
        BigInteger m = p[0].multiply(p[0]).multiply(THREE).mod(P);
        BigInteger x = m.multiply(m).subtract(s.shiftLeft(1)).mod(P);
        BigInteger y = m.multiply(s.subtract(x)).subtract(y2.multiply(y2).shiftLeft(3)).mod(P);
        BigInteger z = p[1].multiply(p[2]).shiftLeft(1).mod(P);
        return new BigInteger[] { x, y, z };
    }
    static BigInteger[] jadd(BigInteger[] p, BigInteger[] q) {
        if (p == null) return q;
        if (q == null) return p;
        BigInteger z1 = p[2].multiply(p[2]).mod(P), z2 = q[2].multiply(q[2]).mod(P);
        BigInteger u1 = p[0].multiply(z2).mod(P), u2 = q[0].multiply(z1).mod(P);
        BigInteger s1 = p[1].multiply(z2).multiply(q[2]).mod(P), s2 = q[1].multiply(z1).multiply(p[2]).mod(P);
        if (u1.equals(u2)) return s1.equals(s2) ? jdbl(p) : null;
        BigInteger h = u2.subtract(u1).mod(P), r = s2.subtract(s1).mod(P);
        BigInteger h2 = h.multiply(h).mod(P), h3 = h2.multiply(h).mod(P), v = u1.multiply(h2).mod(P);
        BigInteger x = r.multiply(r).subtract(h3).subtract(v.shiftLeft(1)).mod(P);
        BigInteger y = r.multiply(v.subtract(x)).subtract(s1.multiply(h3)).mod(P);
        BigInteger z = p[2].multiply(q[2]).multiply(h).mod(P);
        return new BigInteger[] { x, y, z };
    }
    static BigInteger[] jac(BigInteger[] p) { return p == null ? null : new BigInteger[] { p[0], p[1], BigInteger.ONE }; }
    static BigInteger[] aff(BigInteger[] p) {
        if (p == null) return null;
        BigInteger zi = p[2].modInverse(P), z2 = zi.multiply(zi).mod(P);
        return new BigInteger[] { p[0].multiply(z2).mod(P), p[1].multiply(z2).multiply(zi).mod(P) };
    }
    static BigInteger[] mul(BigInteger k, BigInteger[] p) {
        k = k.mod(N);
        BigInteger[] r = null, b = jac(p);
        for (int i = k.bitLength() - 1; i >= 0; i--) { r = jdbl(r); if (k.testBit(i)) r = jadd(r, b); }
        return aff(r);
    }
    static final Map<String, Value> mulCache = java.util.Collections.synchronizedMap(new LinkedHashMap<String, Value>() {
        protected boolean removeEldestEntry(Map.Entry<String, Value> e) { return size() > 200000; } });
    @TLAPlusOperator(identifier = "RealPMul", module = "Prims", warn = false)
    public static Value PMul(Value k, Value p) {
        String key = hex(bytes(k)) + hex(bytes(p));
        Value c = mulCache.get(key);
        if (c == null) { c = ptv(mul(num(k), pt(p))); mulCache.put(key, c); }
        return c;
    }
    @TLAPlusOperator(identifier = "RealPAdd", module = "Prims", warn = false)
    public static Value PAdd(Value a, Value b) { return ptv(aff(jadd(jac(pt(a)), jac(pt(b))))); }
    @TLAPlusOperator(identifier = "RealPNeg", module = "Prims", warn = false)
    public static Value PNeg(Value a) { BigInteger[] p = pt(a); return ptv(p == null ? null : new BigInteger[] { p[0], P.subtract(p[1]).mod(P) }); }
    @TLAPlusOperator(identifier = "RealPG", module = "Prims", warn = false)
    public static Value PG() { return ptv(new BigInteger[] { GX, GY }); }
    @TLAPlusOperator(identifier = "RealPOn", module = "Prims", warn = false)
    public static Value POn(Value a) {
        BigInteger[] p = pt(a);
        if (p == null) return BoolValue.ValFalse;
        boolean ok = p[0].compareTo(P) < 0 && p[1].compareTo(P) < 0
            && p[1].multiply(p[1]).mod(P).equals(p[0].pow(3).add(SEVEN).mod(P));
        return ok ? BoolValue.ValTrue : BoolValue.ValFalse;
    }
    // the point with abscissa x and ordinate of the given parity, <<>> if x >= p or not on the curve
    @TLAPlusOperator(identifier = "RealPLift", module = "Prims", warn = false)
    public static Value PLift(Value xv, BoolValue odd) {
        BigInteger x = num(xv);
        if (x.compareTo(P) >= 0) return ptv(null);
        BigInteger c = x.pow(3).add(SEVEN).mod(P);
        BigInteger y = c.modPow(P.add(BigInteger.ONE).shiftRight(2), P);
        if (!y.multiply(y).mod(P).equals(c)) return ptv(null);
        if (y.testBit(0) != odd.val) y = P.subtract(y).mod(P);
        return ptv(new BigInteger[] { x, y });
    }
}
