package com.qualcomm.qti.qms.api.mink;

import java.util.concurrent.atomic.AtomicInteger;

/** Stand-in: base of generated skeletons. */
public abstract class JMinkObject implements IMinkObject {
    protected final AtomicInteger mRefs = new AtomicInteger(1);

    public void retain() {
        mRefs.incrementAndGet();
    }

    public void release() {
        mRefs.decrementAndGet();
    }
}
