"""quiet.py [id …]: apply behaviour-preserving edits to /repo one at a time, run the checks of the properties they touch,
restore /repo. Each check must stay quiet; what it reports besides is shown."""
import os
import subprocess
import sys

D = '/repo/discretehelpers/'
EDITS = {
    'digit-loop-enumerate': ('C01 C03', 'a/_binary/__init__.py', [
        ("    place = 0\n    result = 0\n    for digit in vector:\n        if digit:\n            result += 1 << place  # 2 ** place\n        place += 1\n",
         "    result = 0\n    for place, digit in enumerate(vector):\n        if digit:\n            result += 2 ** place\n")]),
    'digits-by-range': ('C03', 'a/_binary/__init__.py', [
        ("    exposet = []\n    count = 0\n    while n > 0:\n        if n % 2:\n            exposet.append(count)\n        n = n // 2\n        count += 1\n    return exposet",
         "    return [i for i in range(n.bit_length()) if n >> i & 1]")]),
    'digits-reordered': ('C03', 'a/_binary/__init__.py', [
        ("        n = n // 2\n        count += 1\n", "        count += 1\n        n //= 2\n")]),
    'factoradic-divmod': ('C03 C06', 'a/int_to_factoradic/__init__.py', [
        ("        result.append(value % divisor)\n        value //= divisor\n", "        value, digit = divmod(value, divisor)\n        result.append(digit)\n")]),
    'negation-helper': ('C07 C08', 'sig_perm/__init__.py', [
        ("            natural_entry = logic_abs(signed_entry)\n            v_raw = vector[natural_entry]\n            v = ~v_raw if signed_entry < 0 else v_raw  # The negation with tilda is correct.\n            result_vector.append(v)\n        return",
         "            result_vector.append(entry_of(vector, signed_entry))\n        return"),
        ("class SigPerm(Perm):", "def entry_of(vector, signed_entry):\n    if signed_entry < 0:\n        return ~vector[~signed_entry]\n    return vector[signed_entry]\n\n\nclass SigPerm(Perm):")]),
    'sigperm-comprehension': ('C07 C08', 'sig_perm/__init__.py', [
        ("            sequence = []\n            for key in range(length):\n                perm_val = perm[key]\n                do_negate = keyneg.has_index(key)\n                sigperm_val = logic_negate(perm_val, do_it=do_negate)\n                sequence.append(sigperm_val)\n",
         "            sequence = [logic_negate(perm[key], do_it=keyneg.has_index(key)) for key in range(length)]\n")]),
    'perm-init-comprehension': ('C04 C05', 'perm/__init__.py', [
        ("                for key, val in enumerate(arg):\n                    if key != val:\n                        mapping[key] = val\n            elif",
         "                mapping = {key: val for key, val in enumerate(arg) if key != val}\n            elif"),
        ("        self.neutral = False\n        self.mapping = mapping\n", "        self.mapping = mapping\n        self.neutral = False\n")]),
    'perm-getitem-get': ('C04 C05', 'perm/__init__.py', [
        ("                if arg in self.moved:\n                    return self.mapping[arg]\n                else:\n                    return arg\n            else:", "                return self.mapping[arg] if arg in self.mapping else arg\n            else:")]),
    'perm-mul-comprehension': ('C05', 'perm/__init__.py', [
        ("        mapping = dict()\n        for i in moved:\n            mapping[i] = self[other[i]]\n        return Perm(mapping, perilen)", "        return Perm({i: self[other[i]] for i in moved}, perilen)")]),
    'smaller-all': ('C15', 'boolf/methods/bitwise/__init__.py', [
        ("        for i in range(length):\n            if self_vector[i] > other_vector[i]:\n                return False\n        return True", "        return all(self_vector[i] <= other_vector[i] for i in range(length))")]),
    'bitwise-branches': ('C15', 'boolf/methods/bitwise/__init__.py', [
        ("        vector = {\n            'and': self_vector & other_vector,\n            'or': self_vector | other_vector,\n            'xor': self_vector ^ other_vector\n        }[name]\n        return",
         "        if name == 'and':\n            vector = self_vector & other_vector\n        elif name == 'or':\n            vector = self_vector | other_vector\n        else:\n            vector = self_vector ^ other_vector\n        return")]),
    'deflate-break-first': ('C14 C15', 'boolf/a/deflate/__init__.py', [
        ("        if sum(vector) % 2 == 0:  # if weight even --> test vector for inflation\n            if pattern_index >= valency:\n                break\n", "        if sum(vector) % 2 == 1 or pattern_index >= valency:\n            break\n        else:\n"),
        ("                pattern_index = 0\n        else:\n            break\n", "                pattern_index = 0\n")]),
    'val-comprehension': ('C16', 'boolf/methods/vals_apply/val.py', [
        ("        vals_list = []\n        for i in range(len(first_arg)):\n            args_i = [arg_list[i] for arg_list in args]\n            vals_list.append(self.val(*args_i))\n        return Binv(vals_list)",
         "        return Binv([self.val(*[arg_list[i] for arg_list in args]) for i in range(len(first_arg))])")]),
    'apply-zip': ('C16', 'boolf/methods/vals_apply/apply.py', [
        ("[logic_negate(atomkey_perm[_], negators[_]) for _ in range(self.valency)]", "[logic_negate(key, neg) for key, neg in zip(atomkey_perm, negators)]")]),
    'evil-parity': ('C03', 'a/evil_odious/__init__.py', [
        ("    index_depravity = int_to_weight(i) % 2\n    negated_index_depravity = int(not index_depravity)\n    return 2 * i + negated_index_depravity", "    return 2 * i + 1 - int_to_weight(i) % 2")]),
    'repeat-early-return': ('C20', 'a/repeat_sequence/__init__.py', [
        ("    result = list(short_sequence) * repeat\n\n    if type(short_sequence) == tuple:\n        return tuple(result)\n    else:\n        return result", "    return short_sequence * repeat")]),
    'multisubset-get': ('C20', 'a/is_multisubset/__init__.py', [
        ("            try:\n                count_b = b[element]\n                if count_b < count_a:\n                    return False\n            except KeyError:\n                return False\n    return True\n\n\ndef m", "            if element not in b or b[element] < count_a:\n                return False\n    return True\n\n\ndef m")]),
    'inventory-comprehension': ('C20', 'a/inventory_dict/__init__.py', [
        ("        values = sorted(set(arg))\n        for value in values:\n            result[value] = arg.count(value)\n", "        result = {value: arg.count(value) for value in sorted(set(arg))}\n")]),
    'binv-guard': ('C01 C02', 'binv/__init__.py', [
        ("                if intval == 0:\n                    self.set_empty()\n                    return\n                vector", "                if intval < 1:\n                    return self.set_empty()\n                vector"),
        ("        self.vector = vector if trust else [bool(int(e)) for e in vector]\n        self.set_dummies()\n", "        self.set_dummies()\n        self.vector = vector if trust else [int(e) == 1 for e in vector]\n")]),
}


def run(pid):
    env = dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick', ORACLE_EXTRA='4')
    r = subprocess.run(['/opt/venv/bin/python', '/verif/check.py', pid], capture_output=True, text=True, env=env, timeout=900)
    shown = [x[:170] for x in r.stdout.split('\n') if x.startswith(('VIOLATION', 'bounded only', 'undecided', 'obligation not'))]
    return r.returncode, shown


bad = 0
for name in sys.argv[1:] or EDITS:
    props, path, subs = EDITS[name]
    with open(D + path) as f:
        text = f.read()
    for old, new in subs:
        assert text.count(old) == 1, (name, text.count(old), old)
        text = text.replace(old, new)
    with open(D + path, 'w') as f:
        f.write(text)
    try:
        for pid in props.split():
            code, shown = run(pid)
            bad += code != 0
            print(name, pid, 'quiet' if code == 0 else f'EXIT {code}', *shown, sep='\n    ' if shown else ' ', flush=True)
    finally:
        subprocess.run(['git', '-C', '/repo', 'checkout', '--', 'discretehelpers/' + path], check=True)
print('alarms:', bad)
