"""Real ZODB on an in-memory storage whose commits can be made to fail."""
from ZODB import DB
from ZODB.ConflictResolution import ConflictResolvingStorage
from ZODB.MappingStorage import MappingStorage
from ZODB.POSException import ConflictError


class StorageFailure(Exception):
    pass


class Stuck(Exception):
    """a commit would wait for ever for another one to end"""


class MemoryStorage(MappingStorage):
    """MappingStorage; all sessions run in one thread, so nothing can end while a commit waits"""

    def tpc_begin(self, transaction, tid=None):
        if transaction is not self._transaction:
            if not self._commit_lock.acquire(False):
                raise Stuck('two transactions are being committed')
            self._commit_lock.release()
        return MappingStorage.tpc_begin(self, transaction, tid)


class FaultyStorage(MemoryStorage):
    """MappingStorage whose commit number `fail_at` (counted from arm()) fails
    in the two-phase commit, before anything becomes visible."""

    armed = False
    count = 0
    fail_at = None

    def arm(self, fail_at):
        self.armed, self.count, self.fail_at = True, 0, fail_at

    def disarm(self):
        self.armed = False

    def tpc_vote(self, transaction):
        if self.armed:
            i, self.count = self.count, self.count + 1
            if i == self.fail_at:
                raise StorageFailure()
        return MappingStorage.tpc_vote(self, transaction)


class ResolvingStorage(ConflictResolvingStorage, MemoryStorage):
    """MappingStorage that lets objects merge concurrent changes, as FileStorage does"""

    def store(self, oid, serial, data, version, transaction):
        try:
            return MappingStorage.store(self, oid, serial, data, version, transaction)
        except ConflictError as e:
            if not e.serials or e.serials[0] == e.serials[1]:
                raise
            self._tdata[oid] = self.tryToResolveConflict(oid, e.serials[0], serial, data)
            self.merged = getattr(self, 'merged', []) + [oid]

    def tpc_begin(self, *args, **kw):
        self.merged = []
        return MemoryStorage.tpc_begin(self, *args, **kw)

    def tpc_vote(self, transaction):
        MappingStorage.tpc_vote(self, transaction)
        return self.merged


def container_storage(container, kind=FaultyStorage):
    """a storage whose database holds the container at root.container"""
    st = kind()
    db = DB(st)
    conn = db.open()
    conn.root.container = container
    conn.transaction_manager.commit()
    conn.close()
    return st, db


def open_container_db(container, storage=FaultyStorage, **kw):
    from citrine.database.containerdb import ContainerDb
    st, _ = container_storage(container, storage)
    return st, ContainerDb(st, **kw)
