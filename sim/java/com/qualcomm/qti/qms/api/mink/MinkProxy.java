package com.qualcomm.qti.qms.api.mink;

/** Stand-in: base of generated proxies. */
public class MinkProxy implements IMinkObject {
    protected IMinkObject minkObject;

    public MinkProxy(IMinkObject o) {
        minkObject = o;
    }

    public void invoke(int methodID, byte[][] bi, int[] boSizes, byte[][] bo, IMinkObject[] oi, IMinkObject[] oo) throws InvokeException {
        minkObject.invoke(methodID, bi, boSizes, bo, oi, oo);
    }

    public void retain() {
        minkObject.retain();
    }

    public void release() {
        minkObject.release();
    }

    public boolean isNull() {
        return minkObject == null || minkObject.isNull();
    }

    /** For the simulator. */
    public static IMinkObject under(MinkProxy p) {
        return p.minkObject;
    }
}
