C, F, S, T, D, I = [f"dustgoggles/{n}" for n in ("composition.py", "func.py", "structures.py", "tracker.py", "dynamic.py", "codex/implements.py")]
EDITS = {
"naturals_count": (["F01", "C02"], [(F, "    return accumulate(repeat(1), add)", "    ix = 1\n    while True:\n        yield ix\n        ix += 1")]),
"are_in_loop": (["F01"], [(F, "        return reduce(oper, map(inclusion, items))", "        results = [inclusion(item) for item in items]\n        outcome = results[0]\n        for result in results[1:]:\n            outcome = oper(outcome, result)\n        return outcome")]),
"disjoint_loop": (["F01"], [(F, "    return [\n        [file for file in this_set if file not in shared] for this_set in sets\n    ]", "    output = []\n    for this_set in sets:\n        kept = []\n        for file in this_set:\n            if file in shared:\n                continue\n            kept.append(file)\n        output.append(kept)\n    return output")]),
"optionalize_baseexc": (["F02", "D02"], [(F, "        try:\n            return func(*args, **kwargs)\n        except KeyboardInterrupt:\n            raise\n        except Exception as e:\n            exc_callback(e)\n    return optionally", "        try:\n            result = func(*args, **kwargs)\n        except Exception as e:\n            exc_callback(e)\n            return None\n        return result\n    return optionally")]),
"to_records_append": (["S06"], [(S, "            category_dict = accumulated_levels | {level_name: category}\n            flat = mapping | category_dict\n            records.append(flat)", "            record = dict(mapping)\n            record.update(accumulated_levels)\n            record[level_name] = category\n            records.append(record)")]),
"unnest_generator": (["S07"], [(S, "        if not isinstance(maybe_mapping, mtypes):\n            long_records.append({f\"{prefix}{level}\": maybe_mapping})\n            continue\n        long_records += _unnest(maybe_mapping, mtypes, escape,\n                                levels + [level])", "        if isinstance(maybe_mapping, mtypes):\n            deeper = _unnest(maybe_mapping, mtypes, escape, [*levels, level])\n            long_records.extend(deeper)\n        else:\n            long_records.append({prefix + str(level): maybe_mapping})")]),
"dig_flat": (["S01", "S02"], [(S, "    if nests:\n        level_items += reduce(\n            add, [dig_for_all(nest, predicate, mtypes) for nest in nests]\n        )\n    return level_items", "    for nest in nests:\n        level_items += dig_for_all(nest, predicate, mtypes)\n    return level_items")]),
"dig_one_pass": (["S01", "S02"], [(S, "    nests = [v for v in mapping.values() if isinstance(v, mtypes)]\n    level_items = [(k, v) for k, v in mapping.items() if predicate(k, v)]\n    return level_items, nests", "    nests, level_items = [], []\n    for k, v in mapping.items():\n        if isinstance(v, mtypes):\n            nests.append(v)\n        if predicate(k, v):\n            level_items.append((k, v))\n    return level_items, nests")]),
"dig_for_first": (["S02"], [(S, "    dug, iternests = None, iter(nests)\n    while dug is None:\n        try:\n            dug = dig_for(next(iternests), predicate, mtypes)\n        except StopIteration:\n            return None\n    return dug", "    for nest in nests:\n        dug = dig_for(nest, predicate, mtypes)\n        if dug is not None:\n            return dug\n    return None")]),
"edit_loop": (["S03"], [(S, "    matches = tuple(filter(splat(filter_func), mapping.items()))\n    for key, value in matches:\n        mapping[key] = setter_func(key, value)", "    matches = [(k, v) for k, v in mapping.items() if filter_func(k, v)]\n    for key, value in matches:\n        mapping[key] = setter_func(key, value)")]),
"rmerge_loops": (["S05"], [(S, "        if kv[0] in only_in_one:\n            output[kv[0]] = kv[1]\n        elif all(map(lambda m: isinstance(m, mtypes), (map1[kv[0]], map2[kv[0]]))):\n            output[kv[0]] = rmerge(map1[kv[0]], map2[kv[0]], mtypes)\n        else:\n            output[kv[0]] = map2[kv[0]]", "        key, value = kv\n        if key in only_in_one:\n            output[key] = value\n            continue\n        left, right = map1[key], map2[key]\n        if isinstance(left, mtypes) and isinstance(right, mtypes):\n            output[key] = rmerge(left, right, mtypes)\n        else:\n            output[key] = right")]),
"rmerge_two_pass": (["S05"], [(S, "    output = {}\n    only_in_one = set(map1.keys()).symmetric_difference(map2.keys())\n    for kv in chain(map1.items(), map2.items()):\n        if kv[0] in only_in_one:\n            output[kv[0]] = kv[1]\n        elif all(map(lambda m: isinstance(m, mtypes), (map1[kv[0]], map2[kv[0]]))):\n            output[kv[0]] = rmerge(map1[kv[0]], map2[kv[0]], mtypes)\n        else:\n            output[kv[0]] = map2[kv[0]]\n    return output", "    output = dict(map1)\n    for key, value in map2.items():\n        mine = output.get(key)\n        if key in output and isinstance(mine, mtypes) and isinstance(value, mtypes):\n            output[key] = rmerge(mine, value, mtypes)\n        else:\n            output[key] = value\n    return output")]),
"get_from_all_comp": (["S09"], [(S, "    return list(map(methodcaller(\"get\", key, default), view))", "    return [mapping.get(key, default) for mapping in view]")]),
"insert_after_items": (["S09"], [(S, "    new_dict = {}\n    for key, value in mapping.items():\n        new_dict[key] = value\n        if key == prior_key:\n            new_dict[new_key] = new_value\n    return new_dict", "    items = []\n    for item in mapping.items():\n        items.append(item)\n        if item[0] == prior_key:\n            items.append((new_key, new_value))\n    return dict(items)")]),
"reindex_enum": (["S09", "C03"], [(S, "    return {\n        ix: value for ix, value in zip(range(len(mapping)), mapping.values())\n    }", "    return dict(enumerate(mapping.values()))")]),
"enum_dict": (["S09", "C03"], [(S, "    return {ix: element for ix, element in enumerate(sequence)}", "    return dict(enumerate(sequence))")]),
"separate_append": (["S09"], [(S, "        if ref(item) is True:\n            hits.append(item)\n        else:\n            misses.append(item)\n    return hits, misses", "        (hits if ref(item) is True else misses).append(item)\n    return hits, misses")]),
"hashdict_setdefault": (["S10"], [(S, "        if itemhash not in self.reverse.keys():\n            self.reverse[itemhash] = item", "        self.reverse.setdefault(itemhash, item)")]),
"pool_map_split": (["S11"], [(S, "            self.results = {\n                rec['key']: self.apply(func, rec['args'], rec['kwargs'])\n                for rec in argrecs\n            }", "            results = {}\n            for rec in argrecs:\n                results[rec['key']] = self.apply(func, rec['args'], rec['kwargs'])\n            self.results = results")]),
"pool_setdefault": (["S11"], [(S, "            rec['key'] = rec.get('key', i)\n            rec['args'] = rec.get('args', ())\n            rec['kwargs'] = rec.get('kwargs', {})", "            rec.setdefault('key', i)\n            rec.setdefault('args', ())\n            rec.setdefault('kwargs', {})")]),
"pool_get_helper": (["S11"], [(S, "                if self.chunked is True:\n                    output |= v.get()\n                else:\n                    output[k] = v.get()", "                result = v.get()\n                output.update(result if self.chunked is True else {k: result})")]),
"execute_loop": (["C04", "C01", "C05"], [(C, "            iterpipe = self.itercall(signal, **special_kwargs)\n            state = None\n            for step_ix, state in zip(count(), iterpipe):\n                pass\n            return state", "            state = None\n            for state in self.itercall(signal, **special_kwargs):\n                step_ix += 1\n            return state")]),
"execute_enumerate": (["C04", "C01", "C05"], [(C, "            for step_ix, state in zip(count(), iterpipe):\n                pass", "            for step_ix, state in enumerate(iterpipe):\n                continue")]),
"execute_helper": (["C04", "C01", "C05"], [(C, "                self.tracker.track(\n                    self.steps[tuple(self.steps.keys())[step_ix + 1]],\n                    **exc_report(ex)\n                )\n", "                self._report(step_ix + 1, ex)\n"), (C, "    def iter(self):\n", "    def _report(self, step_ix, ex):\n        failed = list(self.steps.values())[step_ix]\n        self.tracker.track(failed, **exc_report(ex))\n\n    def iter(self):\n")]),
"sends_order": (["C03", "C01"], [(C, "            if target is None:\n                if pipe is None:\n                    continue\n                pipe(state)\n            elif pipe is None:\n                self.place_into(state, target, index)\n            else:\n                self.place_into(pipe(state), target, index)", "            if target is None and pipe is None:\n                continue\n            thing = state if pipe is None else pipe(state)\n            if target is not None:\n                self.place_into(thing, target, index)")]),
"flow_signal_while": (["C02", "C01"], [(C, "        opening = first(\n            filter(lambda integer: integer - 1 not in args.keys(), naturals())\n        )\n        args[opening - 1] = state\n        return [args[k] for k in sorted(args.keys())]", "        opening = 0\n        while opening in args:\n            opening += 1\n        args[opening] = state\n        return [args[k] for k in sorted(args)]")]),
"call_step_comp": (["C02", "C01"], [(C, "            args = keyfilter(lambda k: isinstance(k, int), insert)\n            kwargs = keyfilter(lambda k: isinstance(k, str), insert)", "            args = {k: v for k, v in insert.items() if isinstance(k, int)}\n            kwargs = {k: v for k, v in insert.items() if isinstance(k, str)}")]),
"add_insert_setdefault": (["C02", "C03"], [(C, "        if step_name not in self.inserts.keys():\n            self.inserts[step_name] = {}\n        self.inserts[step_name][key] = value", "        self.inserts.setdefault(step_name, {})[key] = value")]),
"captures_comp": (["C03"], [(C, "        self.captures = {step: [None] for step in self.steps}\n        for k, v in self.captures.items():\n            self.add_capture(k, v)", "        self.captures = {}\n        for step in self.steps:\n            self.captures[step] = [None]\n            self.add_capture(step, self.captures[step])")]),
"track_partial": (["C03", "C05", "T01"], [(C, "    def track(_):\n        return tracker.track(func, step=step)\n\n    return track", "    return lambda _state: tracker.track(func, step=step)")]),
"tracker_clear": (["T01"], [(T, "        self.history[:] = []\n        self.counter = count(1)\n\n    def track", "        self.history.clear()\n        self.counter = count(1)\n\n    def track")]),
"tracker_rec": (["T01"], [(T, "        rec = (\n            {\n                \"target\": target,\n                \"caller\": info.function,\n                \"lineno\": info.lineno,\n                \"trackcount\": next(self.counter),\n            }\n            | self.metadata\n            | metadata\n        )\n        self.history.append(rec)", "        rec = {\n            \"target\": target,\n            \"caller\": info.function,\n            \"lineno\": info.lineno,\n            \"trackcount\": next(self.counter),\n        }\n        rec.update(self.metadata)\n        rec.update(metadata)\n        self.history += [rec]")]),
"tracker_dump_bytes": (["T02"], [(T, "            if mode == \"rb+\":\n                stream.seek(-1, SEEK_END)\n                stream.write(b\",\\n\")\n            else:\n                stream.write(b\"[\")\n            stream.write(payload)\n            stream.write(b\"]\")", "            if mode == \"rb+\":\n                stream.seek(-1, SEEK_END)\n                opening = b\",\\n\"\n            else:\n                opening = b\"[\"\n            stream.write(opening + payload + b\"]\")")]),
"exc_report_loop": (["D01", "D02", "C04"], [(D, "        if (module := getmodule(fr)) is not None:\n            try:\n                codename = fr.f_code.co_qualname\n            except AttributeError:\n                codename = fr.f_code.co_name\n            report['name'].append(f'{module.__name__}.{codename}')\n        else:\n            report['name'].append(fr.f_code.co_name)", "        module = getmodule(fr)\n        if module is None:\n            label = fr.f_code.co_name\n        else:\n            try:\n                label = fr.f_code.co_qualname\n            except AttributeError:\n                label = fr.f_code.co_name\n            label = module.__name__ + '.' + label\n        report['name'].append(label)")]),
"dynamic_call": (["D02"], [(D, "        try:\n            return dontcare(self.func, self.errors)(*args, **kwargs)\n        finally:\n            if len(self.errors) > 0:\n                if self.errors[-1].get('category') == 'call':\n                    self.call_fail = True", "        n_errors = len(self.errors)\n        result = dontcare(self.func, self.errors)(*args, **kwargs)\n        if len(self.errors) > n_errors:\n            self.call_fail = True\n        return result")]),
"dynamic_load_inline": (["D02"], [(D, "        self.compile_source(reload)\n        self.define(reload)\n", "        for stage in (self.compile_source, self.define):\n            stage(reload)\n")]),
"rec_inserts": (["X01"], [("dustgoggles/scrape.py", "import", "import") ] if False else []),
}
K, Q, M, P, X, I = "dustgoggles/codex/codecs.py", "dustgoggles/codex/memutilz.py", "dustgoggles/mosaic.py", "dustgoggles/pivot.py", "dustgoggles/scrape.py", "dustgoggles/codex/implements.py"
KX = ["K01", "K02", "K03", "K04"]
MORE = {
"open_block_check": (["K01", "K03", "K05", "K06", "K07"], [(Q, "        old_block = SharedMemory(address)\n        old_block.unlink()\n        old_block.close()\n        return SharedMemory(address, True, size)", "        delete_block(address)\n        return SharedMemory(name=address, create=True, size=size)")]),
"exists_block_close": (["K01", "K06", "K07"], [(Q, "    try:\n        SharedMemory(address)\n        return True\n    except FileNotFoundError:", "    try:\n        block = SharedMemory(name=address)\n        block.close()\n        return True\n    except FileNotFoundError:")]),
"fetch_bytes": (["K03", "K04", "K06"], [(Q, "    return block.buf.tobytes()", "    contents = bytes(block.buf)\n    block.close()\n    return contents")]),
"delete_block_guard": (["K01", "K03", "K04"], [(Q, "    try:\n        block = SharedMemory(address)\n        block.unlink()\n        block.close()\n    except FileNotFoundError:\n        if missing_ok is False:\n            raise", "    if missing_ok is True and not exists_block(address):\n        return\n    block = SharedMemory(address)\n    block.unlink()\n    block.close()")]),
"tag_enumerate_list": (KX[:2], [(I, "        self.cache = []\n        for ix, key in self._enumerate_keys():\n            self.cache.append(key)\n        return self.cache", "        self.cache = [key for _, key in self._enumerate_keys()]\n        return self.cache")]),
"tag_write_helper": (KX, [(I, "        keyblock = open_block(\n            self.key_address(self.length),\n            create=True,\n            size=len(keybytes),\n            overwrite=True\n        )\n        keyblock.buf[:] = keybytes\n", "        self._write(self.key_address(self.length), keybytes)\n"), (I, "    def _add(self, key, exists_ok) -> Optional[int]:\n", "    @staticmethod\n    def _write(address, blob):\n        block = open_block(address, len(blob), True, True)\n        block.buf[:] = blob\n\n    def _add(self, key, exists_ok) -> Optional[int]:\n")]),
"tag_check_try": (["K01", "K02"], [(I, "        if exists_block(self.hash_address(target)):\n            nameblock = SharedMemory(self.hash_address(target))\n            return int.from_bytes(nameblock.buf.tobytes(), \"little\")\n        return None", "        try:\n            nameblock = SharedMemory(self.hash_address(target))\n        except FileNotFoundError:\n            return None\n        return int.from_bytes(nameblock.buf.tobytes(), \"little\")")]),
"tag_del_reorder": (["K01", "K02"], [(I, "        delete_block(self.hash_address(target))\n        new_length_bytes = (self.length - 1).to_bytes(8, \"little\")\n        self.memory.buf[:] = new_length_bytes\n", "        new_length_bytes = (self.length - 1).to_bytes(8, \"little\")\n        self.memory.buf[:] = new_length_bytes\n        delete_block(self.hash_address(target))\n")]),
"tag_del_last_var": (["K01", "K02", "K03"], [(I, "        if found_at != self.length - 1:\n            lastblock = SharedMemory(self.key_address(self.length - 1))", "        last = self.length - 1\n        if found_at < last:\n            lastblock = SharedMemory(self.key_address(last))")]),
"meta_enumerate_tuple": (["K02"], [(I, "            key, val = load(ix)\n            output = [ix]\n            if get_keys is True:\n                output.append(key)\n            if get_values is True:\n                output.append(val)\n            yield tuple(output)", "            key, val = load(ix)\n            output = (ix,)\n            if get_keys is True:\n                output += (key,)\n            if get_values is True:\n                output += (val,)\n            yield output")]),
"meta_items_zip": (["K02"], [(I, "        return [(key, val) for _, key, val in self._enumerate(True, True)]", "        return [triple[1:] for triple in self._enumerate(True, True)]")]),
"meta_del_branches": (["K02", "K04"], [(I, "            if (\n                (found_at == self.length - 1)\n                or not exists_block(self.val_address(self.length - 1))\n            ):\n                delete_block(self.val_address(found_at), True)\n            elif exists_block(self.val_address(self.length - 1)):\n                valblock", "            last = self.val_address(self.length - 1)\n            if found_at == self.length - 1:\n                delete_block(last, True)\n            elif not exists_block(last):\n                delete_block(self.val_address(found_at), True)\n            else:\n                valblock")]),
"meta_add_name": (["K02", "K04"], [(I, "            writehead = super()._add(key, exists_ok)\n            if value is not None:\n                self.memorize(value, self.val_address(writehead))\n            return writehead", "            position = self._add(key, exists_ok)\n            if value is None:\n                return position\n            self.memorize(value, self.val_address(position))\n        return position")]),
"note_get_direct": (["K03"], [(I, "        try:\n            return self.__getitem__(key, fetch)\n        except KeyError:\n            return default\n\n    def __setitem__(self, key, value, meta=None", "        try:\n            return self.remember(self.address(key), fetch)\n        except FileNotFoundError:\n            return default\n\n    def __setitem__(self, key, value, meta=None")]),
"note_reserved_helper": (["K03", "K04"], [(I, "        if str(key).startswith(\"index\"):\n            raise KeyError(\"'index' is a reserved key prefix\")\n        try:\n            self.index.add(key, meta", "        self._refuse_reserved(key)\n        try:\n            self.index.add(key, meta"), (I, "    def values(self):\n        # TODO: something with MemoryViews?\n        raise NotImplementedError(\"Try using the itervalues method for now\")\n\n    def items(self):\n        # TODO: something with MemoryViews?\n        raise NotImplementedError(\"Try using the iteritems method for now\")\n\n    def dump(self, key, fn=None, mode=\"wb\"):", "    @staticmethod\n    def _refuse_reserved(key):\n        if str(key)[:5] == \"index\":\n            raise KeyError(\"'index' is a reserved key prefix\")\n\n    def values(self):\n        # TODO: something with MemoryViews?\n        raise NotImplementedError(\"Try using the itervalues method for now\")\n\n    def items(self):\n        # TODO: something with MemoryViews?\n        raise NotImplementedError(\"Try using the iteritems method for now\")\n\n    def dump(self, key, fn=None, mode=\"wb\"):")]),
"note_clear_list": (["K03", "K04"], [(I, "    def clear(self):\n        for key in self.update_index():\n            del self[key]\n\n    def __str__(self):\n        return f\"{self.__class__.__name__} with keys {self.update_index()}\"", "    def clear(self):\n        for key in list(self.update_index()):\n            self.__delitem__(key)\n\n    def __str__(self):\n        return f\"{self.__class__.__name__} with keys {self.update_index()}\"")]),
"grid_del_else": (["K04"], [(I, "        try:\n            delete_block(self.address(key))\n            self.index.remove(key)\n            for block in self._open_blocks:\n                if block.name == key:\n                    block.close()\n                    block.unlink()\n        except FileNotFoundError:\n            raise KeyError(f\"{key} not apparently assigned\")", "        address = self.address(key)\n        if not exists_block(address):\n            raise KeyError(f\"{key} not apparently assigned\")\n        delete_block(address)\n        self.index.remove(key)\n        for block in self._open_blocks:\n            if block.name == key:\n                block.close()\n                block.unlink()")]),
"grid_set_order": (["K04"], [(I, "            metadata, block = self.memorize(\n                value, self.address(key), exists_ok, keep_open\n            )\n            if keep_open is True:\n                self._open_blocks.append(block)\n        except FileExistsError:\n            raise KeyError(\n                f\"{key} already exists in this object's cache. pass \"\n                f\"exists_ok=True to overwrite it.\"\n            )\n        self.index.add(key, metadata)", "            metadata, block = self.memorize(\n                value, self.address(key), exists_ok, keep_open\n            )\n        except FileExistsError:\n            raise KeyError(\n                f\"{key} already exists in this object's cache. pass \"\n                f\"exists_ok=True to overwrite it.\"\n            )\n        self.index.add(key, metadata)\n        if keep_open is True:\n            self._open_blocks.append(block)")]),
"sticky_read": (["K05"], [(I, "        if (self._cached_value is not None) and (reread is False):\n            return self._cached_value\n        try:\n            block = SharedMemory(self.address)\n        except FileNotFoundError:\n            return None\n        stream = block.buf.tobytes()\n        self._cached_value = self.decode(stream)\n        return self._cached_value", "        if reread is not False or self._cached_value is None:\n            try:\n                stream = fetch_block_bytes(self.address)\n            except FileNotFoundError:\n                return None\n            self._cached_value = self.decode(stream)\n        return self._cached_value")]),
"sticky_stick": (["K05"], [(I, "        encoded = self.encode(obj)\n        size = len(encoded)\n        block = open_block(self.address, size, overwrite=True)\n        block.buf[:] = encoded\n        self._cached_value = obj", "        blob = self.encode(obj)\n        if exists_block(self.address):\n            delete_block(self.address)\n        target = open_block(self.address, len(blob))\n        target.buf[:] = blob\n        self._cached_value = obj")]),
"sticky_close_helper": (["K05"], [(I, "    def close(self):\n        block = SharedMemory(self.address)\n        block.unlink()\n        block.close()\n\n    def pull", "    def close(self):\n        delete_block(self.address)\n\n    def pull")]),
"memorize_writer": (["K06", "K03", "K02"], [(K, "        if (exists_ok is False) and exists_block(address):\n            raise FileExistsError\n        encoded = encode(value)\n        size = len(encoded)\n        block = open_block(address, size, True, True)\n        block.buf[:] = encoded\n        return address", "        if exists_ok is False:\n            if exists_block(address):\n                raise FileExistsError(address)\n        blob = encode(value)\n        open_block(address, len(blob), overwrite=True).buf[:] = blob\n        return address")]),
"json_separators": (["K06"], [(K, "        return json.dumps(value).encode()", "        return json.dumps(value, separators=(\",\", \":\")).encode(\"utf-8\")")]),
"array_meta": (["K04"], [(K, "        block = open_block(address, array.size * array.itemsize, True, True)\n", "        nbytes = array.itemsize * array.size\n        block = open_block(address, nbytes, create=True, overwrite=True)\n"), (K, "            \"size\": array.size * array.itemsize\n", "            \"size\": nbytes\n")]),
"array_nbytes": (["K04"], [(K, "        shared_array[...] = array\n", "        shared_array[:] = array\n" if False else "        np.copyto(shared_array, array)\n")]),
"lock_release_split": (["K07"], [(I, "        for thing in (\"lock\", \"marker\"):\n            block = getattr(self, thing)\n            if block is None:\n                continue\n            block.unlink()\n            block.close()\n            setattr(self, thing, None)\n            if getattr(self, \"debug\") is True:\n                log(f\"{here()},{self.number},released {thing}\")\n        self.acquired = False", "        if self.lock is not None:\n            self.lock.unlink()\n            self.lock.close()\n            self.lock = None\n        if self.marker is not None:\n            self.marker.unlink()\n            self.marker.close()\n            self.marker = None\n        self.acquired = False")]),
"lock_check_forward": (["K07"], [(I, "        for other_number in reversed(range(self.floor, self.number)):", "        for other_number in range(self.number - 1, self.floor - 1, -1):")]),
"lock_acquire_loop": (["K07"], [(I, "        while self.acquired is False:\n            self.acquired = self._check_acquirement()", "        while not self.acquired:\n            self.acquired = self._check_acquirement()")]),
"lock_count_helper": (["K07"], [(I, "            self.floor = int.from_bytes(self.count.buf.tobytes(), \"little\")\n", "            self.floor = self._counted()\n"), (I, "            if int.from_bytes(self.count.buf.tobytes(), \"little\") >= self.number:", "            if self._counted() >= self.number:"), (I, "    def _check_acquirement(self):\n", "    def _counted(self):\n        return int.from_bytes(bytes(self.count.buf), \"little\")\n\n    def _check_acquirement(self):\n")]),
"between_comp": (["M01", "M02"], [(M, "    bound_records = []\n    for rec in meta_records:\n        if not ((rec[\"min\"] > bounds[1]) or (rec[\"max\"] < bounds[0])):\n            bound_records.append(rec)\n", "    low, high = bounds\n    bound_records = [\n        rec for rec in meta_records\n        if rec[\"min\"] <= high and rec[\"max\"] >= low\n    ]\n")]),
"between_mask": (["M01", "M02"], [(M, "        less_than = pac.filter(group, pac.less(group[field], bounds[1]))\n        more_than = pac.filter(\n            less_than, pac.greater_equal(less_than[field], bounds[0])\n        )\n        bound_groups.append(more_than)\n", "        above = pac.filter(group, pac.greater_equal(group[field], bounds[0]))\n        bound_groups.append(\n            pac.filter(above, pac.less(above[field], bounds[1]))\n        )\n")]),
"between_and": (["M01", "M02"], [(M, "        less_than = pac.filter(group, pac.less(group[field], bounds[1]))\n        more_than = pac.filter(\n            less_than, pac.greater_equal(less_than[field], bounds[0])\n        )\n        bound_groups.append(more_than)\n", "        column = group[field]\n        mask = pac.and_(\n            pac.less(column, bounds[1]), pac.greater_equal(column, bounds[0])\n        )\n        bound_groups.append(group.filter(mask))\n")]),
"meta_records_loops": (["M01", "M02"], [(M, "    for col_ix, group_ix in product(\n        range(meta.num_columns), range(meta.num_row_groups)\n    ):\n        record = meta.row_group(group_ix).column(col_ix).to_dict()\n        if \"statistics\" in record.keys():\n            record |= record.pop(\"statistics\")\n        records.append(record | {\"row_group\": group_ix, \"col_ix\": col_ix})\n", "    for col_ix in range(meta.num_columns):\n        for group_ix in range(meta.num_row_groups):\n            record = meta.row_group(group_ix).column(col_ix).to_dict()\n            statistics = record.pop(\"statistics\", {})\n            record.update(statistics)\n            record[\"row_group\"] = group_ix\n            record[\"col_ix\"] = col_ix\n            records.append(record)\n")]),
"sort_windows_zip": (["M02"], [(M, "    windows = list(windowed(np.linspace(min_value, max_value, n_chunks), 2))\n    windows[-1] = (windows[-1][0], np.inf)\n    if direction == \"descending\":\n        windows.reverse()\n", "    edges = np.linspace(min_value, max_value, n_chunks)\n    windows = list(zip(edges[:-1], edges[1:]))\n    windows[-1] = (windows[-1][0], np.inf)\n    if direction == \"descending\":\n        windows = windows[::-1]\n")]),
"sort_minmax_gen": (["M02"], [(M, "    max_value = max([rec[\"max\"] for rec in relevant_records])\n    min_value = min([rec[\"min\"] for rec in relevant_records])\n", "    min_value = min(rec[\"min\"] for rec in relevant_records)\n    max_value = max(rec[\"max\"] for rec in relevant_records)\n")]),
"sort_skip_merge": (["M02"], [(M, "            if window_table is None:\n                continue\n            if len(window_table) == 0:\n                continue\n", "            if window_table is None or window_table.num_rows == 0:\n                continue\n")]),
"bounds_helper": (["P01"], [(P, "    info = np.iinfo(dt) if dt.kind in 'iu' else np.finfo(dt)\n    if dt.kind in 'iu':\n        # numpy would round integer bounds to the type of a float operand\n        amin, amax = np.asarray(amin).item(), np.asarray(amax).item()\n", "    if dt.kind in 'iu':\n        info = np.iinfo(dt)\n        # numpy would round integer bounds to the type of a float operand\n        amin, amax = np.asarray(amin).item(), np.asarray(amax).item()\n    else:\n        info = np.finfo(dt)\n")]),
"int_array_ladder": (["P01"], [(P, "    sign = 'u' if amin >= 0 else ''\n    for depth in (8, 16, 32, 64):\n        dt = np.dtype(f'{sign}int{depth}')\n        if check_in_dtype_bounds(amin, amax, dt):\n", "    prefix = 'int' if amin < 0 else 'uint'\n    for depth in (8, 16, 32, 64):\n        dt = np.dtype(prefix + str(depth))\n        if check_in_dtype_bounds(amin, amax, dt) is True:\n")]),
"maybeseries_if": (["P01"], [(P, "    arr = arr.copy() if arr.dtype == dtype else arr.astype(dtype)\n    if library == 'pandas':\n        arr = pd.Series(arr, name=name)\n    return {'recast': arr, 'aerr': aerr, 'rerr': rerr}", "    recast = arr.astype(dtype, copy=True)\n    if library == 'pandas':\n        recast = pd.Series(recast, name=name)\n    return dict(recast=recast, aerr=aerr, rerr=rerr)")]),
"downcast_errors": (["P01"], [(P, "        offsets = np.abs(arr_nzero - recast)\n        if (aerr := np.nanmax(np.abs(offsets))) > atol:\n            continue\n        if (rerr := np.nanmax(np.abs(offsets / arr_nzero))) > rtol:\n            continue\n", "        offsets = np.abs(arr_nzero - recast)\n        aerr = np.nanmax(offsets)\n        rerr = np.nanmax(np.abs(offsets / arr_nzero))\n        if aerr > atol or rerr > rtol:\n            continue\n")]),
"downcast_skip": (["P01"], [(P, "        elif kind != 'float' and number == 128:\n            continue\n        elif kind != 'float' and has_nonfinite and use_nillable_int is False:\n            continue\n        elif kind == 'float' and number == 8:\n            continue\n", "        if kind == 'float':\n            if number == 8:\n                continue\n        elif number == 128 or (has_nonfinite and use_nillable_int is False):\n            continue\n")]),
"scrape_meta_loop": (["X01"], [(X, "    metadata = {\n        field: scrape(pattern) for field, pattern in metadata_regex.items()\n    }\n", "    metadata = {}\n    for field in metadata_regex:\n        metadata[field] = scrape(metadata_regex[field])\n")]),
"scrape_group_once": (["X01"], [(X, "        try:\n            return literal_eval(result.group(1))\n        except (\n            ValueError, SyntaxError, TypeError, MemoryError, RecursionError\n        ):\n            return result.group(1)\n", "        text = result[1]\n        try:\n            return literal_eval(text)\n        except (\n            ValueError, SyntaxError, TypeError, MemoryError, RecursionError\n        ):\n            return text\n")]),
"scrape_update": (["X01"], [(X, "        metadata |= supplemental_search_function(label, label_text)\n    return metadata", "        metadata.update(supplemental_search_function(label, label_text))\n    return metadata")]),
"bulk_comp": (["X01"], [(X, "    metaframe = []\n    for file in files:\n        metaframe.append(pattern_scraper(file))\n    return metaframe", "    return [pattern_scraper(file) for file in files]")]),
"label_with": (["X01"], [(X, "    if isinstance(label, str):\n        label = Path(label)\n    with open(label, \"rb\") as file:\n        return file.read(byte_size).decode()", "    with Path(label).open(\"rb\") as file:\n        head = file.read(byte_size)\n    return head.decode()")]),
"dontcare_update": (["D02", "D01"], [("dustgoggles/dynamic.py", "        target.append(exc_report(exc) | {'func': func, 'category': 'call'})", "        report = exc_report(exc)\n        report.update(func=func, category='call')\n        target.append(report)")]),
"dynamic_optional_inline": (["D02"], [("dustgoggles/dynamic.py", "        if _optional is None:\n            _optional = self.optional\n        if _optional is False:\n", "        optional = self.optional if _optional is None else _optional\n        if optional is False:\n")]),
"exc_report_gen": (["D01", "D02"], [("dustgoggles/dynamic.py", "        report['lineno'].append(tb.tb_lineno)\n        report['filename'].append(fr.f_code.co_filename)\n        del fr  # taking excessive care here\n", "        code = fr.f_code\n        report['filename'].append(code.co_filename)\n        report['lineno'].append(tb.tb_lineno)\n        del fr, code  # taking excessive care here\n")]),
"tracker_dump_with": (["T02"], [("dustgoggles/tracker.py", "        key_order = sorted(self.log.keys(), key=lambda n: \"history\" in n)\n        self.log = {k: self.log[k] for k in key_order}\n", "        history = self.log.pop(\"history\")\n        self.log[\"history\"] = history\n")]),
"optional_unload_split": (["D02"], [("dustgoggles/dynamic.py", "        self.call_fail, self.compile_fail = False, False\n        self.code, self.func, self.errors = None, None, []\n", "        self.call_fail = False\n        self.compile_fail = False\n        self.code = None\n        self.func = None\n        self.errors = []\n")]),
}
EDITS.update(MORE)
EDITS.update({
"split_inverse": (["P02"], [(P, "    return df.loc[predicate], df.loc[~predicate]", "    rest = ~predicate\n    return df[predicate], df[rest]")]),
"squeeze_default": (["P02"], [(P, "    if aggfunc is None:\n        if pd.api.types.is_bool_dtype(series.dtype):\n            aggfunc = \"any\"\n        else:\n            return series.loc[~series.index.duplicated()]\n", "    if aggfunc is None and not pd.api.types.is_bool_dtype(series.dtype):\n        return series.loc[~series.index.duplicated()]\n    aggfunc = \"any\" if aggfunc is None else aggfunc\n")]),
"duplicates_mask": (["P02"], [(P, "    extra_columns = dataframe.columns[dataframe.columns.duplicated()]\n    if len(extra_columns) == 0:\n        return dataframe\n", "    repeated = dataframe.columns.duplicated()\n    if not repeated.any():\n        return dataframe\n    extra_columns = dataframe.columns[repeated]\n")]),
"constants_helper": (["P02", "M01"], [(P, "            series = series if dropna is False else series.dropna()\n            if (len(series) == 0) or (series == series.iloc[0]).all():\n", "            if dropna is not False:\n                series = series.dropna()\n            if len(series) == 0 or series.eq(series.iloc[0]).all():\n")]),
"unpack_names": (["P02"], [(P, "    df.columns = [f\"{dropped.name}_{i}\" for i, _ in enumerate(df.columns)]\n    return df", "    names = [f\"{dropped.name}_{i}\" for i in range(df.shape[1])]\n    return df.set_axis(names, axis=1)")]),
})
EDITS.update({
"insert_after_positions": (["S09"], [(S, "    new_dict = {}\n    for key, value in mapping.items():\n        new_dict[key] = value\n        if key == prior_key:\n            new_dict[new_key] = new_value\n    return new_dict", "    pairs = []\n    for key in mapping:\n        pairs.append((key, mapping[key]))\n        if key == prior_key:\n            pairs.append((new_key, new_value))\n    return dict(pairs)")]),
"get_from_recursive_guard": (["S08"], [(S, "    level = collection\n    for key in keys:\n        try:\n            level = getitemattr(level, key)\n        except (AttributeError, TypeError):\n            return default\n    return level", "    try:\n        for key in keys:\n            collection = getitemattr(collection, key)\n    except (AttributeError, TypeError):\n        return default\n    return collection")]),
"getitemattr_subscript": (["S08"], [(S, "    try:\n        return getitem(collection, key)\n    except (KeyError, IndexError, TypeError):\n        return getattr(collection, key)", "    try:\n        item = collection[key]\n    except (LookupError, TypeError) as missing:\n        if not isinstance(missing, (KeyError, IndexError, TypeError)):\n            raise\n        return getattr(collection, key)\n    return item")]),
"dig_predicate_ifs": (["S01", "S02"], [(S, "    if match == \"key\":\n        return keyonly(partial(default, putative_predicate))\n    elif match == \"value\":\n        return valonly(partial(default, putative_predicate))\n    elif match == \"item\":\n        return partial(default, putative_predicate)", "    test = partial(default, putative_predicate)\n    if match == \"item\":\n        return test\n    if match == \"value\":\n        return valonly(test)\n    return keyonly(test) if match == \"key\" else None")]),
"place_into_early": (["C03"], [(C, "            if pointer is None:\n                target.append(thing)\n            else:\n                target[pointer] = thing\n        elif isinstance(target, dict):", "            if pointer is not None:\n                target[pointer] = thing\n                return\n            target.append(thing)\n        elif isinstance(target, dict):")]),
"sends_thing_first": (["C03", "C04"], [(C, "            if target is None:\n                if pipe is None:\n                    continue\n                pipe(state)\n            elif pipe is None:\n                self.place_into(state, target, index)\n            else:\n                self.place_into(pipe(state), target, index)", "            thing = state if pipe is None else pipe(state)\n            if target is not None:\n                self.place_into(thing, target, index)")]),
"add_send_setdefault": (["C03", "C05"], [(C, "        if step_name not in self.sends.keys():\n            self.sends[step_name] = []\n        self.sends[step_name].append((pipe, target, pointer))", "        send = (pipe, target, pointer)\n        self.sends.setdefault(step_name, []).append(send)")]),
"partial_step_flow": (["C02", "C04"], [(C, "        if len(args) == 0:\n            return step.func(state, **kwargs)\n        return step.func(*self._flow_signal(state, args), **kwargs)", "        positional = self._flow_signal(state, args) if args else [state]\n        return step.func(*positional, **kwargs)")]),
"call_step_get_default": (["C02"], [(C, "        step, insert = self.steps[step_name], self.inserts.get(step_name)\n        if insert is None:\n            args, kwargs = {}, {}\n        else:\n", "        step = self.steps[step_name]\n        insert = self.inserts.get(step_name)\n        args, kwargs = {}, {}\n        if insert is not None:\n")]),
"itercall_items": (["C01", "C04"], [(C, "            state = self._do_step(step_name, state)\n            yield state", "            output = self._do_step(step_name, state)\n            yield output\n            state = output")]),
"execute_failed_step": (["C04"], [(C, "            if self.tracker is not None:\n                self.tracker.track(\n                    self.steps[tuple(self.steps.keys())[step_ix + 1]],\n                    **exc_report(ex)\n                )\n", "            if self.tracker is not None:\n                failed = self.index[step_ix + 1]\n                report = exc_report(ex)\n                self.tracker.track(self.steps[failed], **report)\n")]),
"pool_ready_counts": (["S11"], [(S, "        return len(tuple(filter(lambda r: r.ready(), self.results.values())))", "        return sum(1 for r in self.results.values() if r.ready())")]),
"pool_apply_branches": (["S11"], [(S, "        kwargs = {} if kwargs is None else kwargs\n        if self.pool is None:\n            return MaybeResult(func, args, kwargs)\n        return self.pool.apply_async(func, args, kwargs)", "        if kwargs is None:\n            kwargs = {}\n        if self.pool is not None:\n            return self.pool.apply_async(func, args, kwargs)\n        return MaybeResult(func, args, kwargs)")]),
"into_pool_filter_loop": (["S11"], [(S, "            results = {\n                k: v for k, v in results.items()\n                if not isinstance(v, Exception)\n            }\n", "            for k, v in tuple(results.items()):\n                if isinstance(v, Exception):\n                    del results[k]\n")]),
"edit_nests_inline": (["S03"], [(S, "    for nest in [v for v in mapping.values() if isinstance(v, mtypes)]:\n        dig_and_edit(nest, filter_func, setter_func, mtypes)\n", "    for nest in tuple(mapping.values()):\n        if isinstance(nest, mtypes):\n            dig_and_edit(nest, filter_func, setter_func, mtypes)\n")]),
"note_del_nested_try": (["K03"], [(I, "        try:\n            delete_block(self.address(key))\n            self.index.remove(key)\n        except FileNotFoundError:\n            raise KeyError(f\"{key} not apparently assigned\")\n\n    def values(self):\n        # TODO: something with MemoryViews?\n        raise NotImplementedError(\"Try using the itervalues method for now\")\n\n    def items(self):\n        # TODO: something with MemoryViews?\n        raise NotImplementedError(\"Try using the iteritems method for now\")\n\n    def dump(self, key, fn=None, mode", "        try:\n            delete_block(self.address(key))\n        except FileNotFoundError:\n            raise KeyError(f\"{key} not apparently assigned\")\n        self.index.remove(key)\n\n    def values(self):\n        # TODO: something with MemoryViews?\n        raise NotImplementedError(\"Try using the itervalues method for now\")\n\n    def items(self):\n        # TODO: something with MemoryViews?\n        raise NotImplementedError(\"Try using the iteritems method for now\")\n\n    def dump(self, key, fn=None, mode")]),
"iteritems_value_first": (["K03", "K04"], [(I, "        for key in self.update_index():\n            yield key, self[key]", "        for key in self.update_index():\n            value = self[key]\n            yield key, value")]),
"sticky_read_nested": (["K05"], [(I, "        if (self._cached_value is not None) and (reread is False):\n            return self._cached_value\n", "        if reread is False:\n            if self._cached_value is not None:\n                return self._cached_value\n")]),
"tag_del_swap_branches": (["K01", "K02"], [(I, "        if found_at is None:\n            raise KeyError(f\"{target} not found in this index.\")\n        self.update_length()\n        if found_at != self.length - 1:", "        if found_at is None:\n            raise KeyError(f\"{target} not found in this index.\")\n        self.update_length()\n        last = self.length - 1\n        if not found_at == last:")]),
"meta_load_value_guard": (["K02"], [(I, "        try:\n            return self.remember(self.val_address(ix))\n        except FileNotFoundError:\n            return\n", "        address = self.val_address(ix)\n        if not exists_block(address):\n            return None\n        return self.remember(address)\n")]),
"exc_report_for": (["D01", "D02"], [("dustgoggles/dynamic.py", "    exc = exc if stringify_exception is False else f\"{type(exc)}: {exc}\"\n    report = {'exception': exc, 'lineno': [], 'name': [], 'filename': []}\n", "    if stringify_exception is not False:\n        exc = f\"{type(exc)}: {exc}\"\n    report = dict(exception=exc, lineno=[], name=[], filename=[])\n")]),
"dynamic_define_local": (["D02"], [("dustgoggles/dynamic.py", "        self.func = define(self.code, self.globals_)\n        self.__signature__ = signature(self.func)\n        self.__name__ = self.func.__name__\n", "        func = define(self.code, self.globals_)\n        self.func = func\n        self.__name__, self.__signature__ = func.__name__, signature(func)\n")]),
"track_target_hasattr": (["T01"], [(T, "        if \"__name__\" in dir(func):\n            target = func.__name__\n        else:\n            target = str(func)\n", "        target = func.__name__ if \"__name__\" in dir(func) else str(func)\n")]),
"argstop_islice": (["F02"], [("dustgoggles/func.py", "        if (len(args) == 1) and (unpack is True):\n            args = args[0]\n        args = args[:arg_count]\n        return func(*args, **kwargs)", "        given = args[0] if unpack is True and len(args) == 1 else args\n        return func(*given[:arg_count], **kwargs)")]),
"interaction_inverted": (["F02"], [("dustgoggles/func.py", "    if noninteractive:\n        return _default\n    return func(*args, **kwargs)", "    if not noninteractive:\n        return func(*args, **kwargs)\n    return _default")]),
"constants_how_flag": (["P02"], [(P, "    if how == \"rows\":\n        constants = df.loc[:, constant_indices]\n        variables = df.loc[:, ~constant_indices]\n    else:\n        constants = df.loc[constant_indices]\n        variables = df.loc[~constant_indices]\n", "    varying = ~constant_indices\n    if how != \"rows\":\n        constants, variables = df.loc[constant_indices], df.loc[varying]\n    else:\n        constants, variables = df.loc[:, constant_indices], df.loc[:, varying]\n")]),
"dupe_block_take": (["P02"], [(P, "    rows = np.repeat(np.arange(len(dataframe)), repeats)\n    return dataframe.iloc[rows].reset_index(drop=True)", "    positions = np.arange(len(dataframe))\n    repeated = dataframe.iloc[np.repeat(positions, repeats)]\n    return repeated.reset_index(drop=True)")]),
})
EDITS = {k: v for k, v in EDITS.items() if v[1]}
