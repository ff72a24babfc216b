"""a remote that lives in memory, bound to local paths and caches the way an application does it"""
import os, hashlib, pathlib
import augpathlib as aug
from augpathlib import PathMeta,LocalPath,PrimaryCache,EatCache,SymlinkCache,RemotePath
from datetime import datetime,timezone

def make(world):
    class Local(LocalPath):
        @property
        def cache_id(self):
            c = self.cache
            return None if c is None else c.id
    Local._bind_flavours()
    class Cache(PrimaryCache, EatCache):
        xattr_prefix='mem'
        _not_exists_cache=SymlinkCache
        cypher=hashlib.sha256
        @property
        def anchor(self):
            return getattr(self.__class__._abstract_class(),'_anchor',None)
        @property
        def trash(self): return self.local_data_dir/'trash'
        @property
        def cache_key(self): return self.id
        def _meta_is_root(self, meta): return meta.id==world.root
        def _sparse_include(self): return self.name.endswith('.inc')
        @property
        def data(self): yield from self.remote.data
    Cache._bind_flavours()
    class Api:
        def __init__(self, ident):
            self.root=world.root
            if ident!=world.root: raise ValueError('bad root')
    class Remote(RemotePath):
        _api_class=Api
        @property
        def anchor(self): return self.__class__(world.root)
        def is_dir(self): return world.o[self.id]['kind']=='d'
        def is_file(self): return world.o[self.id]['kind']=='f'
        def exists(self): return self.id in world.o
        def _sparse_include(self): return self.name.endswith('.inc')
        @property
        def name(self): return world.o[self.id]['name']
        @property
        def stem(self): return pathlib.PurePath(self.name).stem
        @property
        def parent(self):
            p=world.o[self.id]['parent']
            return None if p is None else self.__class__(p)
        @property
        def meta(self):
            world.step()
            o=world.o[self.id]
            kw=dict(o.get('meta',{}))
            return PathMeta(id=self.id,name=o['name'],parent_id=o['parent'],**kw)
        @property
        def children(self):
            for i,o in list(world.o.items()):
                if o['parent']==self.id: world.step(); yield self.__class__(i)
        def _rchildren(self, create_cache=True, sparse=False):
            for c in self.children:
                yield c
                yield from c._rchildren(create_cache=create_cache,sparse=sparse)
        @property
        def data(self):
            world.asked+=1
            d=world.o[self.id]['data']
            if world.fail==1: raise world.error
            for i in range(0,len(d),world.chunk):
                yield d[i:i+world.chunk]
                if world.fail==2: raise world.error
        def refresh(self, update_cache=False, update_data=False, update_data_on_cache=False, size_limit_mb=2, force=False):
            if self.id not in world.o: return None
            if update_cache or update_data:
                different=world.different=self.update_cache()
                update_existing=different and self.cache.exists()
                udoc=update_data_on_cache and different
                if update_existing or udoc: size_limit_mb=None
                update_data=update_data or update_existing or udoc
            if update_data and self.is_file():
                self.cache.fetch(size_limit_mb=size_limit_mb)
            return self.cache
    R=Remote._new(Local,Cache)
    return Local,Cache,R
class Tripped(Exception):
    pass
class World:
    trip=None
    different=None
    def step(s):
        if s.trip is not None:
            s.trip-=1
            if s.trip<0: raise Tripped('remote gone')
    chunk=4; fail=0; asked=0; error=ConnectionError('remote gone')
    def __init__(s, name='root'): s.root='r0'; s.o={'r0':dict(kind='d',parent=None,name=name)}
    def add(s,i,kind,parent,name,data=b'',t=1):
        s.o[i]=dict(kind=kind,parent=parent,name=name,data=data)
        if kind=='f':
            s.o[i]['meta']=dict(size=len(data),checksum=hashlib.sha256(data).digest(),created=datetime(2020,1,t,tzinfo=timezone.utc),updated=datetime(2020,1,t,tzinfo=timezone.utc),file_id=int(i[1:]))


def when(n):
    return datetime(2020, 1, n, tzinfo=timezone.utc)


def meta(id, name, **kw):
    d = dict(id=id, name=name, size=5, created=when(1), updated=when(2), checksum=hashlib.sha256(name.encode()).digest(),
             file_id=7)
    d.update(kw)
    return PathMeta(**d)
