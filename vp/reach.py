"""What a simulated component still holds on to: everything reachable from given roots without leaving the component."""
import asyncio
import gc
import types

_SKIP = (type, types.ModuleType, types.BuiltinFunctionType, types.CodeType, types.MethodWrapperType, types.WrapperDescriptorType,
         types.GetSetDescriptorType, types.MemberDescriptorType)


def reachable(roots, skip_modules=("vp.", "logging", "asyncio.events", "asyncio.base_events", "threading", "_thread", "psutil", "enum")):
    seen = set()
    stack = list(roots)
    out = []
    while stack:
        o = stack.pop()
        if id(o) in seen or isinstance(o, _SKIP):
            continue
        seen.add(id(o))
        mod = type(o).__module__ or ""
        if mod.startswith(skip_modules) or (mod + ".").startswith(("vp.",)):
            continue
        out.append(o)
        if isinstance(o, types.FunctionType):
            stack.extend(o.__closure__ or ())
            stack.extend(o.__defaults__ or ())
            continue
        if isinstance(o, types.FrameType):
            stack.extend(o.f_locals.values())
            continue
        if isinstance(o, (types.CoroutineType, types.GeneratorType)):
            f = getattr(o, "cr_frame", None) or getattr(o, "gi_frame", None)
            if f is not None:
                stack.extend(f.f_locals.values())
            a = getattr(o, "cr_await", None) or getattr(o, "gi_yieldfrom", None)
            if a is not None:
                stack.append(a)
            continue
        if isinstance(o, asyncio.Task):
            stack.append(o.get_coro())
            continue
        if isinstance(o, dict) and "__builtins__" in o:
            continue
        stack.extend(gc.get_referents(o))
    return out


def loop_roots(proc):
    return list(asyncio.all_tasks(proc.loop)) if proc.loop is not None else []
