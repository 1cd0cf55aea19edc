#!/usr/bin/env python3
"""Writes /verif/known-findings.json: open findings first, then the repaired ones (by commit in /repo)."""
import json,os,subprocess
V=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..")
OPEN=[]
MAP=[ # (subject prefix, properties, what failed)
("complete the pending response when the first frame",["C08","C10"],"a response whose first frame was a reset was never completed: the caller hung"),
("drop the payload of an unfinished or refused frame",["C11"],"payload of an abandoned or refused frame was prepended to the next frame of the same or another writer"),
("a handler that leaves its request stream unread",["C03"],"a handler that returned without reading its stream blocked the connection's reader forever"),
("reader no longer waits forever on a closed connection",["C09"],"the reader waited forever for a stream to end on a closed connection"),
("a closed reconnecting connection stops dialing",["C19"],"a closed reconnecting connection kept dialing"),
("writes of a reconnecting connection return when",["C19"],"writes on a reconnecting connection hung after loss or close"),
("reconnecting connections honour TLSConf",["C19","C22"],"NewConnectionWithReconnect dialed in clear text although TLS was configured"),
("NewReusedConnection honours TLSConf",["C22"],"NewReusedConnection dialed in clear text although TLS was configured"),
("writing to a stream that is already over is refused",["C07"],"frames written after a stream was over on both sides went out and recreated it"),
("ToNonStream removes the stream flags",["C04","C07"],"ToNonStream kept the stream-end flag"),
("a stream reset by the peer is freed",["C27"],"a stream reset by the peer after this side finished stayed in the table"),
("a closed connection neither keeps nor removes an id",["C14"],"an id bound while its connection closed stayed bound / a closing connection removed its successor's binding"),
("a failed write no longer deadlocks the takeover of an id",["C14"],"a failing write inside OnKickCB deadlocked the takeover"),
("Serve returns when Shutdown came first",["C16"],"Serve after Shutdown served forever; Shutdown returned while a connection was being started"),
("blocking requests do not raise the inflight limit",["C17"],"every blocking request lowered the in-flight count, raising the limit"),
("registering two handlers for the same routed command panics",["C25"],"a second handler for the same lower two bytes replaced the first silently"),
("SetThrottle and ClearThrottle may be called concurrently",["C18"],"concurrent set/clear closed a channel twice or left waiters paused"),
("channel Send honours end after the first message",["C21"],"the end flag of the second and later Send was ignored"),
("channel Receive decodes the message when the cmd is not asked for",["C21"],"Receive with a nil cmd left the message undecoded or crashed"),
("a channel sender can be used by several goroutines",["C21","C26"],"concurrent Sends on one sender raced and mixed frames"),
("a failed websocket write is not reported as written",["C22"],"the overlay reported a failed write as fully written"),
("closing the websocket listener closes connections not accepted yet",["C16","C22"],"upgraded but not accepted connections stayed open after the listener closed"),
("a slow reader is not dropped on tls",["C28"],"a peer pausing for more than 3 s broke TLS and websocket connections without any write limit"),
("closing the websocket listener closes connections not upgraded yet",["C16"],"connections not upgraded yet stayed open after shutdown"),
("writes on a lost reconnecting connection fail at once",["C19"],"writes issued by handlers after a loss waited for the reconnect and deadlocked it"),
("generated service mux encodes its output",["C30"],"generated service mux encoded its output differently from how the client decodes it"),
("generated code with sub services compiles",["C30"],"generated code with sub services did not compile"),
("generated code uses the import aliases it declares",["C30"],"generated code did not compile when packages shared a name"),
("service calls return when their context ends",["C23"],"a service call ignored its context"),
("a connection is completely set up before WalkConn",["C12","C26"],"WalkConn handed out connections whose reader and writer were not set yet (nil dereference)"),
("the read timeout of a live connection",["C26"],"data race on the read timeout"),
("Call tries every active connection",["C20"],"Call gave up although an endpoint was alive, and tried others after its context ended"),
("a streamed push nobody subscribed to",["C12"],"a streamed push without subscriber blocked the connection's reader forever"),
("client handlers reading a stream end when",["C09","C13"],"client handlers reading a stream hung forever when the connection was lost"),
("answers nobody waits for",["C06","C09"],"a streamed answer nobody waits for wedged the client connection"),
("a stream writer does not send resets after ResetFrame",["C07"],"after ResetFrame every further frame of the stream writer carried the reset flag and went out"),
("a write given up on does not share",["C11","C26"],"a write given up on because the connection ended left its buffer in use while it was reused: frames of other connections were corrupted"),
("handlers of the first client connection find",["C13"],"ClientConnectionInfo, Close and StreamInitiator of a request panicked in handlers of the first connection of a client"),
("Shutdown closes listeners not served yet",["C16"],"after Shutdown the addresses of a server that listened but did not serve yet (or whose later binding failed to listen) still accepted connections"),
("Shutdown releases blocking handlers waiting for the client",["C16","C13"],"Shutdown hung when a blocking handler was waiting for an answer of the client: its connection was never closed"),
("api calls return when their context ends",["C20"],"an api call whose endpoint was being dialed, or did not read, ignored the end of its context"),
("service calls to a server that does not read",["C23"],"a service call to a server that does not read ignored the end of its context"),
("the dial timeout covers",["C28","C19"],"dialing a peer that accepts but never finishes the TLS or WebSocket handshake hung forever despite DialTimeout, and with it the reconnect loop and Wait after Close"),
("GetReusedCon does not race",["C26"],"data race between GetReusedCon and the end of the connection"),
("a takeover is counted once",["C29"],"two connections taking the same id at once counted one takeover twice in the metrics"),
("qrpcurl does not crash",["C31"],"qrpcurl with the push flag crashed with a nil dereference after sending the frame"),
("generated code compiles with types of packages named",["C30"],"generated code did not compile when a package of an input or output was named like a variable of the template (ctx, err, ns, m, s) or a predeclared identifier (string, byte, error)"),
("generated code of a service with a method named Client",["C30"],"generated code did not compile for services with a method named Client"),
("the generator refuses methods with another context type",["C30"],"methods whose first input merely implements context.Context were accepted, and the service could not be registered with what was generated"),
("the generator refuses input and output types",["C30"],"unexported, unnamed and main-package types, and generic ones instantiated with a package's type, were accepted and the generated file did not compile"),
("the generator refuses a method named like the accessor",["C30"],"a main service method SubClient beside a sub service Sub was accepted and the generated file did not compile"),
("a reused connection has the buffer sizes",["C32"],"NewReusedConnection ignored the configured buffer sizes"),
("connections of the ws overlay over tls can be tuned",["C32"],"setting keep-alive or buffer sizes on an accepted or dialed WebSocket-over-TLS connection panicked"),
("a failing accept does not end",["C34"],"one accept error that is not temporary ended the service of a WebSocket binding for good, and closed its listener, with Serve still waiting"),
("an accepted connection that cannot be served",["C34"],"a connection accepted but refused for its type was left open"),
("a refused last frame does not end the stream",["C24"],"a last frame of a stream that the codec refused left the end flag behind: the next frame ended the stream although not asked to, and what followed was refused"),
("calling an API whose endpoints all have weight zero",["C20"],"a call to any endpoint of an API whose weights are all zero panicked"),
("an API keeps its own copy of the weights",["C20"],"an API read the caller's slice of weights, so changing it afterwards changed or broke the choice of endpoints"),
("servers made from the same bindings",["C16"],"two servers made from one slice of bindings shared its listeners: the first served the second one's, and Shutdown left its own open"),
("the frame size limit may exceed 32 bits",["C06"],"a MaxFrameSize of 4 GiB or more was cut to 32 bits: ordinary frames were refused"),
]
log=subprocess.check_output(["git","-C","/repo","log","--format=%h %s"],text=True).splitlines()
out=list(OPEN)
for l in reversed(log):
    h,s=l.split(" ",1)
    if not s.startswith("fix: "): continue
    for pre,props,what in MAP:
        if s[5:].startswith(pre):
            for p in props:
                out.append(dict(property=p,status="fixed",sig="",what=what,entry=f"fixed: property={p} {h} {what}"))
            break
    else: print("no entry for",l)
json.dump(out,open(V+"/known-findings.json","w"),indent=1); open(V+"/known-findings.json","a").write("\n")
print(len(out))
