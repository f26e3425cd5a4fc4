"""Uploader scenarios shared by C18 and C19 (see mc/world.py)."""
import datetime, gzip, json
import world
FAKE_START = None

def telem(n):
    return {"callsign": "MC-UP", "payload_id": "MC-UP", "sequence_number": n, "time": datetime.datetime.now(datetime.timezone.utc).strftime("%H:%M:%S"), "latitude": -34.0 - n, "longitude": 138.0 + n, "altitude": 1000 + n,
            "raw": "00", "modulation": "Horus Binary v2", "extra_%d" % n: n * 0.5, "custom_field_names": ["extra_%d" % n]}

def scenario(U, ops, schedule=None, trace="line", answer=None, max_steps=6000, max_clock=1.7e9 + 1e6, **kw):
    """ops: list of 'A' add next packet, 'C' close, 'R' query running, 'W' wait until the worker sleeps/ends, ('T', s) wait s seconds, 'P' move station, 'B' add a record that must not be uploaded"""
    w = world.World(U, schedule, trace, max_steps, max_clock, answer)
    w.accepted, w.after, w.state, w.closed_at, w.sleeps_at_close = [], [], [], None, None
    w.moved = []
    def main():
        up = U.SondehubAmateurUploader(**kw)
        w.up = up
        n = 0
        for op in ops:
            if op == "A":
                n += 1
                up.add(telem(n)); (w.accepted if w.closed_at is None else w.after).append(n)
            elif op == "B":
                up.add(dict(telem(900), callsign="UNKNOWN_PAYLOAD_ID"))
            elif op == "C":
                up.close()
                if w.closed_at is None:
                    w.closed_at, w.sleeps_at_close = w.clock, sum(w.sleeps.values())
            elif op == "R":
                w.state.append(bool(up.running()))
            elif op == "P":
                up.update_station_position(1.0, 2.0, 3.0); w.moved.append(len(w.requests))
            elif op == "W":
                s0 = sum(w.sleeps.values())
                w.point(cond=lambda: sum(w.sleeps.values()) > s0 or all(t.done for t in w.threads if t is not w.main), free=True)
            elif isinstance(op, tuple):
                w.point(deadline=w.clock + op[1], free=True)
        if w.closed_at is not None or kw.get("inhibit"):
            w.point(cond=lambda: all(t.done for t in w.threads if t is not w.main), free=True)
    w.run(main)
    return w

def batches(w, kind="telemetry"):
    return [r for r in w.requests if r["kind"] == kind]

def frames(req):
    """frame numbers of an uploaded batch"""
    body = gzip.decompress(req["data"])
    return [x["frame"] for x in json.loads(body)]
