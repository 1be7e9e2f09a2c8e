G="quantization/granularity.py"; T="quantization/tiled_tensor.py"
CASES=[
("t2r perm",1,[(T,"    permutation = list(range(0, tiled_data.ndim, 2)) + list(range(1, tiled_data.ndim, 2))","    permutation = list(range(1, tiled_data.ndim, 2)) + list(range(0, tiled_data.ndim, 2))")]),
("t2r interleave",1,[(T,"data_shape = torch.Size(_interleave(num_dim_blocks, tile_size))","data_shape = torch.Size(_interleave(tile_size, num_dim_blocks))")]),
("r2t no reverse",1,[(T,".permute(reverse_permutation)",".permute(permutation)")]),
("r2t no check",1,[(T,"if tiled_data.size() != expected_size:","if tiled_data.numel() != expected_size.numel():")]),
("compat any",1,[(T,"    if mismatched:","    if len(mismatched) > 1:")]),
("compat break",1,[(T,"            mismatched.append(i)","            mismatched.append(i)\n            break\n    if mismatched == [len(tile_size) - 1]:\n        mismatched = []")]),
("compat rank",1,[(T,"if len(input_size) != len(tile_size):","if len(input_size) > len(tile_size):")]),
("r2t no compat",1,[(T,"    data_size = torch.Size(data_size)\n    check_tile_compatibility(data_size, tile_size_to_use)","    data_size = torch.Size(data_size)[::-1]")]),
("channel last only",1,[(G,"        for dim in self.channel_dims:\n            tile_size[dim] = 1","        tile_size[self.channel_dims[-1]] = 1")]),
("block strict",1,[(G,"if self.strict_blocks and data_shape","if not self.strict_blocks and data_shape")]),
("block size",1,[(G,"            tile_size[block_dim] = block_size","            tile_size[block_dim] = data_shape[block_dim] // block_size")]),
("block greater",1,[(G,"if block_size > data_shape[block_dim]:","if block_size >= data_shape[block_dim]:")]),
("block dims len",1,[(G,"if len(self.block_dims) != len(self.block_sizes):","if len(self.block_dims) < len(self.block_sizes):")]),
("block per-channel after",1,[(G,"        return torch.Size(tile_size)\n\n    @override\n    def repr_args(self) -> dict[str, Any]:\n        return {","        for dim in self.per_channel_dims:\n            tile_size[dim] = 1\n        return torch.Size(tile_size)\n\n    @override\n    def repr_args(self) -> dict[str, Any]:\n        return {")]),
("tile no check",1,[(G,"            check_tile_compatibility(data_shape, self.tile_shape)\n","")]),
("tile swallow",1,[(G,"        except ValueError as e:\n            raise e","        except ValueError:\n            return self.tile_shape")]),
("param count",1,[(G,"return data_shape.numel() // tile_size.numel()","return tile_size.numel()")]),
("eq type",1,[(G,"if type(self) is not type(other):","if not isinstance(other, Granularity):")]),
("eq any",1,[(G,"            if getattr(self, key) != getattr(other, key):\n                return False\n        return True","            if getattr(self, key) == getattr(other, key):\n                return True\n        return not args")]),
("match args",1,[(G,'"per_channel_dims", "strict_blocks")','"per_channel_dims")')]),
("infer all unit",1,[(G,"indices = tuple([i for i in dims if tile_size[i] == 1 and data_size[i] > 1])\n        return","indices = tuple([i for i in dims if data_size[i] > 1])\n        return")]),
("infer any",1,[(G,"if all(div == 1 or div == data_dim for","if any(div == 1 or div == data_dim for")]),
("infer block per channel",1,[(G,"return PerBlock(block_dims, block_sizes, per_channel_dims, strict_blocks=strict_blocks)","return PerBlock(block_dims, block_sizes, (), strict_blocks=strict_blocks)")]),
("infer strict",1,[(G,"data_dim % tile_dim == 0 for data_dim","tile_dim % data_dim == 0 for data_dim")]),
("benign rewrite",0,[(G,"        for dim in self.channel_dims:\n            tile_size[dim] = 1\n\n        return torch.Size(tile_size)","        channels = [d % len(tile_size) for d in self.channel_dims]\n        return torch.Size([1 if i in channels else d for i, d in enumerate(tile_size)])"),(T,"    num_dim_blocks = [a // b for a, b in zip(data.size(), tile_size)]\n\n    data_shape = torch.Size(_interleave(num_dim_blocks, tile_size))\n","    data_shape = []\n    for dim, tile in zip(data.size(), tile_size):\n        data_shape += [dim // tile, tile]\n")]),
("benign infer",0,[(G,"    divs = torch.tensor(data_size) / torch.tensor(tile_size)\n    dims = list(range(len(data_size)))\n    if all(div == 1 or div == data_dim for div, data_dim in zip(divs, data_size)):","    dims = list(range(len(data_size)))\n    if all(t in (1, d) for d, t in zip(data_size, tile_size)):")]),
("benign eq",0,[(G,"        for key in args:\n            if getattr(self, key) != getattr(other, key):\n                return False\n        return True","        return all(getattr(self, key) == getattr(other, key) for key in args)")]),
("benign compat",0,[(T,"    mismatched = []\n    for i, (input_dim, tile_dim) in enumerate(zip(input_size, tile_size)):\n        if tile_dim > 0 and input_dim % tile_dim != 0:\n            mismatched.append(i)\n","    mismatched = [\n        i\n        for i in range(len(input_size))\n        if tile_size[i] > 0 and input_size[i] % tile_size[i]\n    ]\n")]),
("benign flatten",0,[(T,"return tiled_data.permute(permutation).reshape(num_blocks, -1)","permuted = tiled_data.permute(*permutation)\n    return permuted.flatten(ndim_half := tiled_data.ndim // 2).reshape(num_blocks, -1) if False else permuted.reshape(num_blocks, tile_size.numel())")]),
]
