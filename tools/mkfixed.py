"""Fills the "fixed" list of known_findings.json from /repo's fix: commits and this table."""
import json, os, subprocess
TOP = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "refuse (or repair) a shelf whose last record": ("C03", "a file cut inside the last record of a transaction opened as if complete"),
 "recognize a shelf transaction whose length": ("C02", "a transaction whose length was never written was taken for an empty one, or damage was accepted"),
 "leave nothing of a failed write in the buffer": ("C04", "bytes of a failed commit stayed in Python's buffer and reached the file later"),
 "make a shelf transaction durable": ("C01", "a commit to a file storage was acknowledged without fsync, and the index position ran ahead after a failed commit"),
 "leave no trace of a failed or abandoned commit in a FileStorage2": ("C04", "records of a failed or abandoned commit were stored by a later one; a torn tail stayed in the file"),
 "return an iterator from get_packer": ("C07", "get_packer() returned a list or None instead of an iterator when there was nothing to do"),
 "exchange the files of a pack without": ("C06", "a crash between the two renames at the end of a pack left no file under the database's name; the lock moved with the rename (C09)"),
 "let another pack start after a pack or a commit that failed": ("C07", "after a failed pack or commit no pack of a FileStorage could start or finish"),
 "report every object removed by a pack": ("C08", "a pack reported only some removed objects, and before they were removed, so identifiers were reused while clients had the old objects cached"),
 "let new_oid() go on after a read error": ("C08", "after one read error new_oid() failed for ever (exhausted generator)"),
 "let another pack of a FileStorage2": ("C07", "after a failed pack no pack of a FileStorage2 could start"),
 "iterate over all records of an SqliteStorage": ("C26", "gen_oid_record() of an SqliteStorage stopped early"),
 "never use an identifier of an existing object in an SqliteStorage": ("C08", "new_oid() of an SqliteStorage returned identifiers in use after reopening"),
 "make a commit of an SqliteStorage durable": ("C01", "SQLite ran with synchronous off or journal in a mode that loses acknowledged commits"),
 "leave no trace of a failed commit in an SqliteStorage": ("C04", "a failed commit stayed as an open SQLite transaction and was committed by the next one"),
 "make a pack of an SqliteStorage safe": ("C05", "a pack of an SqliteStorage removed objects changed meanwhile, or died half-way"),
 "refuse a shelf that was cut just before": ("C03", "a shelf cut just before its offset map opened as an empty database"),
 "refuse a shelf that was cut inside": ("C03", "a shelf cut inside its offset map opened with objects missing, and opening it wrote to it"),
 "keep a BTree balanced": ("C14", "deleting an item between two small BTree nodes left nodes with too few or too many items; later operations raised or lost items"),
 "make a DurusKeyError printable": ("C22", "str() of a DurusKeyError raised, so that logging it ended the server"),
 "tell the other clients of a commit": ("C21", "when a client died before the reply to its commit, other clients were never told of the commit"),
 "keep serving when a connection can not be accepted": ("C22", "an error of accept() ended the server"),
 "keep serving after any error": ("C22", "an unexpected error in handling one client (a disk error, a malformed request) ended the server, and pending records of the dropped client stayed and blocked packs"),
 "keep serving when a pack fails": ("C22", "an error in a pack step ended the server"),
 "read all responses of a bulk load": ("C23", "after a bulk load with a missing object the remaining responses were taken as answers to later requests"),
 "make new objects new again": ("C12", "after a commit failed with anything but a conflict, new objects were taken as stored and left out of the retry"),
 "report a conflict on an object that was changed without being read": ("C17", "an object changed without being read (or after its removal) raised no conflict: an update was lost"),
 "never give a crawled object the state of before": ("C26", "a crawl continued over a transaction boundary gave objects the state of before it"),
 "let a traversal of a FileStorage2": ("C26", "a commit to a FileStorage2 during an iteration over its records made the iteration read a wrong position"),
 "store slots declared with a single string": ("C13", "a slot declared as __slots__ = 'name' or with a private name was not stored"),
 "never generate an item of a shelf twice": ("C26", "iterating over a FileStorage produced an object twice that was changed between two steps"),
 "never take a BTree for empty": ("C14", "deleting a missing key could make a BTree that has items report that it is empty; min and max then raised"),
 "never produce an object of a removed class": ("C26", "a crawl, gen_every_instance() or touch_every_reference() gave the cached ghost of a removed object, of another class, the state of the object that uses its oid now"),
 "forget new objects also when": ("C12", "a failed commit raised AssertionError and left new objects half stored when one had got the oid of a removed object that was still cached"),
 "count the items of a subtree": ("C14", "items of a subtree moved between BTree nodes were not counted: a later deletion raised ValueError or IndexError"),
 "mark nodes of a BTree as changed before": ("C11", "a read error or a conflict in the middle of a BTree insertion or deletion left a node changed in memory after abort()"),
 "describe a Unix socket address": ("C27", "waiting for a server on a Unix socket ended with FileNotFoundError when another server removed its socket at that moment"),
 "revert values in the old nodes": ("C11", "after an abort of set_bnode_minimum_degree() and a change in a value, the tree still held the change"),
 "do not crash on an attribute name": ("C16", "getattr() with a name that has no UTF-8 form (a lone surrogate) crashed the interpreter with the C extension"),
 "never remove the socket of another server": ("C27", "a server that ended removed the socket of its successor"),
 "name an abstract socket inherited": ("C31", "the name of an inherited abstract socket could not be formed, so that the server ended or logged a traceback in place of its address"),
}
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout.split("\n")
out = []
for line in log:
    h, _, s = line.partition(" ")
    if not s.startswith("fix: "):
        continue
    for k, (p, w) in T.items():
        if s[5:].startswith(k):
            out.append("fixed: property=%s %s %s" % (p, h, w))
            break
    else:
        print("no entry for", line)
f = os.path.join(TOP, "known_findings.json")
d = json.load(open(f))
d["fixed"] = out
json.dump(d, open(f, "w"), indent=1)
open(f, "a").write("\n")
print(len(out))
