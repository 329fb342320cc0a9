package com.qualcomm.qti.qms.api.mink;

/** Stand-in for the interface of the Mink Java runtime that generated classes import. */
public interface IMinkObject {
    int OK = 0;
    int ERROR = 1;
    int ERROR_INVALID = 2;
    int ERROR_DEFUNCT = -90;
    int ERROR_BADOBJ = -94;
    int ERROR_UNAVAIL = -97;

    void invoke(int methodID, byte[][] bi, int[] boSizes, byte[][] bo, IMinkObject[] oi, IMinkObject[] oo) throws InvokeException;

    void retain();

    void release();

    boolean isNull();

    class InvokeException extends Exception {
        public final int code;

        public InvokeException(int code) {
            super("error " + code, null, false, false);
            this.code = code;
        }
    }
}
