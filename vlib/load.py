"""Run gyp.input.Load on generated build files in a scratch directory (bounded whole-pipeline checks)."""
import os
from vlib.base import *
setup_path()
import gyp.input as I

VARS = dict(OS='linux', PRODUCT_DIR='PD', INTERMEDIATE_DIR='ID', SHARED_INTERMEDIATE_DIR='SID', EXECUTABLE_SUFFIX='', EXECUTABLE_PREFIX='', STATIC_LIB_PREFIX='lib', SHARED_LIB_PREFIX='lib', STATIC_LIB_SUFFIX='.a',
            SHARED_LIB_SUFFIX='.so', LIB_DIR='LD', CONFIGURATION_NAME='CN', RULE_INPUT_ROOT='RIR', RULE_INPUT_EXT='RIE', RULE_INPUT_NAME='RIN', RULE_INPUT_PATH='RIP', RULE_INPUT_DIRNAME='RID', MAKE_DIR='.')


class Result:
    def __init__(self, flat, targets, data): self.flat, self.targets, self.data = flat, targets, data


def put(d, files):
    for n, c in files.items():
        p = os.path.join(d, n)
        os.makedirs(os.path.dirname(p) or '.', exist_ok=True)
        with open(p, 'w') as f: f.write(c if isinstance(c, str) else repr(c))


def load(files, root='p.gyp', variables=None, toolsets=False, adjust=True, sorted_deps=False, check=False, circular=True, includes=(), roots=None, depth='.', extra_rules=(), non_config=(), paths=()):
    """('ok', Result) or ('raise', class, text).  files: {name: text or data}"""
    with scratch() as d:
        put(d, files)
        os.chdir(d)
        I.cached_conditions_asts.clear() if hasattr(I, 'cached_conditions_asts') else None
        info = dict(non_configuration_keys=list(non_config), path_sections=list(paths), extra_sources_for_rules=list(extra_rules), generator_supports_multiple_toolsets=toolsets,
                    generator_wants_static_library_dependencies_adjusted=adjust, generator_wants_sorted_dependencies=sorted_deps, generator_filelist_paths=None)
        v = dict(VARS, **(variables or {}))
        roots_ = [root] if isinstance(root, str) else list(root)
        o = outcome(I.Load, roots_, v, list(includes), depth, info, check, circular, False, roots)
    return o if o[0] == 'raise' else ('ok', Result(*o[1]))
